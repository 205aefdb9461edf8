------------------------------- MODULE P_ucuc -------------------------------
(* Tree-level amplitude of the process class ucuc: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massu", "massc", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massu", "massc", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp_gluon", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>], [f |-> "amp_rest", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      mu == q.massu
      mc == q.massc
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      preh == (e * e * mu * mc) / (4 * MW * MW * SW * SW)
      gL == 1 - (4 / 3) * SW * SW
      gR == ((-4) / 3) * SW * SW
      preZ == (e * e) / (4 * CW * CW * SW * SW)
      preZ0 == ((preZ * (gL - gR) * (gL - gR) * mu * mc) / MZ) / MZ
  IN [e |-> e,
      gs |-> gs,
      mu |-> mu,
      mc |-> mc,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      preh |-> preh,
      gL |-> gL,
      gR |-> gR,
      preZ |-> preZ,
      preZ0 |-> preZ0]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.mc, k.mu, k.mc>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenTAG == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenTh == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenTZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenTAG |-> pDenTAG,
      pDenTh |-> pDenTh,
      pDenTZ |-> pDenTZ]

amp_gluon(c, ds1, ds2, ds3, ds4) ==
  ((-2) * c.gs * c.gs * (c.a12a[ds1][ds2] * c.s34s[ds3][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s12s[ds1][ds2] * c.a34a[ds3][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenTAG

amp_rest(c, ds1, ds2, ds3, ds4) ==
  LET A == ((((-2) * c.e * c.e * 4) / 9) * (c.a12a[ds1][ds2] * c.s34s[ds3][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s12s[ds1][ds2] * c.a34a[ds3][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenTAG IN
  LET A_2 == A + ((-c.preh) * (c.s13s[ds1][ds3] - c.a13a[ds1][ds3]) * (c.s24s[ds2][ds4] - c.a24a[ds2][ds4])) / c.pDenTh IN
  A_2 + (c.preZ0 * (c.a13a[ds1][ds3] + c.s13s[ds1][ds3]) * (c.a24a[ds2][ds4] + c.s24s[ds2][ds4])) / c.pDenTZ - (2 * c.preZ * (c.gL * c.gL * c.s34s[ds3][ds4] * c.a12a[ds1][ds2] + c.gL * c.gR * (c.s14s[ds1][ds4] * c.a23a[ds2][ds3] + c.s23s[ds2][ds3] * c.a14a[ds1][ds4]) + c.gR * c.gR * c.s12s[ds1][ds2] * c.a34a[ds3][ds4])) / c.pDenTZ

amp2(c) ==
  LET tot_6 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M_rest == amp_rest(c, j1, j2, j3, j4) IN
          LET M_gluon == amp_gluon(c, j1, j2, j3, j4) IN
          LET tot == 9 * AbsSq(M_rest) IN
          tot + 2 * AbsSq(M_gluon))))) IN
  tot_6 / 36

=============================================================================
