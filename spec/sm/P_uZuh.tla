------------------------------- MODULE P_uZuh -------------------------------
(* Tree-level amplitude of the process class uZuh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massu", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (sqrt2 * e * e * mu) / (4 * MW * MW * SW * SW)
      gL == ((-4) / 3) * SW * SW + 1
      gR == ((-4) / 3) * SW * SW
      preZ == (sqrt2 * e * e) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      mu |-> mu,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.MZ, k.mu, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.massu, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s242a |-> Bracket("square", <<2, 4, 2>>, p),
      s142a |-> Bracket("square", <<1, 4, 2>>, p),
      s241a |-> Bracket("square", <<2, 4, 1>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    LET A == (norm * c.preZ * (c.mu * (c.gL - c.gR) * (c.a13a[ds1][ds3] + c.s13s[ds1][ds3]) * c.s242a[ds2a][ds2b] - 2 * c.MZ * c.MZ * (c.gL * c.s23s[ds2a][ds3] * c.a12a[ds1][ds2b] - c.gR * c.a23a[ds2a][ds3] * c.s12s[ds1][ds2b]))) / c.pDenT IN
    LET A_2 == A + (norm * c.preTU * (c.gL * c.a12a[ds1][ds2a] * ((-c.mu) * c.s23s[ds2b][ds3] + c.s213a[ds2b][ds3] + c.MZ * c.a23a[ds2b][ds3]) + c.gR * c.s12s[ds1][ds2a] * (c.mu * c.a23a[ds2b][ds3] - c.s312a[ds3][ds2b] - c.MZ * c.s23s[ds2b][ds3]))) / c.pDenS IN
    A_2 + ((-norm) * c.preTU * (c.gL * c.s23s[ds2a][ds3] * (-c.s142a[ds1][ds2b] + 2 * c.mu * c.a12a[ds1][ds2b]) - c.gR * c.a23a[ds2a][ds3] * (-c.s241a[ds2b][ds1] + 2 * c.mu * c.s12s[ds1][ds2b]))) / c.pDenU)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        3 * AbsSq(M)))) IN
  tot_4 / 18

=============================================================================
