------------------------------- MODULE P_uudd -------------------------------
(* Tree-level amplitude of the process class uudd: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massu", "massd", "massh", "widthh", "massW", "widthW", "sinW", "widthZ">>,
        setm |-> <<"massu", "massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp_W", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>], [f |-> "amp_gluon", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>], [f |-> "amp_rest", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      mu == q.massu
      md == q.massd
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      preh == (e * e * mu * md) / (4 * MW * MW * SW * SW)
      gLu == 1 - (4 / 3) * SW * SW
      gRu == ((-4) / 3) * SW * SW
      gLd == -1 + (2 / 3) * SW * SW
      gRd == (2 / 3) * SW * SW
      preZ == (e * e) / (4 * CW * CW * SW * SW)
      preZ0 == ((preZ * (gLu - gRu) * (gLd - gRd) * mu * md) / MZ) / MZ
  IN [e |-> e,
      gs |-> gs,
      mu |-> mu,
      md |-> md,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      preh |-> preh,
      gLu |-> gLu,
      gRu |-> gRu,
      gLd |-> gLd,
      gRd |-> gRd,
      preZ |-> preZ,
      preZ0 |-> preZ0]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.mu, k.md, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenSAG == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenSh == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenSZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
      pDenTW == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenSAG |-> pDenSAG,
      pDenSh |-> pDenSh,
      pDenSZ |-> pDenSZ,
      pDenTW |-> pDenTW]

amp_W(c, ds1, ds2, ds3, ds4) ==
  ((((c.e * c.e) / c.SW) / c.SW) * (2 * c.MW * c.MW * c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + (c.mu * c.s13s[ds1][ds3] + c.md * c.a13a[ds1][ds3]) * (c.mu * c.a24a[ds2][ds4] + c.md * c.s24s[ds2][ds4]))) / (2 * c.MW * c.MW * c.pDenTW)

amp_gluon(c, ds1, ds2, ds3, ds4) ==
  (2 * c.gs * c.gs * (c.a13a[ds1][ds3] * c.s24s[ds2][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenSAG

amp_rest(c, ds1, ds2, ds3, ds4) ==
  LET A == ((((-2) * c.e * c.e * 2) / 9) * (c.a13a[ds1][ds3] * c.s24s[ds2][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenSAG IN
  LET A_2 == A + (c.preh * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2]) * (c.s34s[ds3][ds4] + c.a34a[ds3][ds4])) / c.pDenSh IN
  A_2 + (((-c.preZ0) * (c.a12a[ds1][ds2] - c.s12s[ds1][ds2]) * (c.a34a[ds3][ds4] - c.s34s[ds3][ds4])) / c.pDenSZ + (2 * c.preZ * (c.gLu * c.gLd * c.s23s[ds2][ds3] * c.a14a[ds1][ds4] + c.gLd * c.gRu * c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.gLu * c.gRd * c.s24s[ds2][ds4] * c.a13a[ds1][ds3] + c.gRu * c.gRd * c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenSZ)

amp2(c) ==
  LET tot_9 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M_rest == amp_rest(c, j1, j2, j3, j4) IN
          LET M_W == amp_W(c, j1, j2, j3, j4) IN
          LET M_gluon == amp_gluon(c, j1, j2, j3, j4) IN
          LET tot == 9 * AbsSq(M_rest) IN
          LET tot_2 == tot + 3 * 2 * Re(M_rest * Conj(M_W)) IN
          LET tot_3 == tot_2 + 9 * AbsSq(M_W) IN
          LET tot_4 == tot_3 + 4 * 2 * Re(M_gluon * Conj(M_W)) IN
          tot_4 + 2 * AbsSq(M_gluon))))) IN
  tot_9 / 36

=============================================================================
