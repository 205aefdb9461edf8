------------------------------ MODULE P_enenee ------------------------------
(* Tree-level amplitude of the process class enenee: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "widthW", "sinW", "widthZ">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
      preZ == (e * e) / (4 * CW * CW * SW * SW)
      preW == (((e * e) / SW) / SW) / (4 * MW * MW)
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      gL |-> gL,
      gR |-> gR,
      preZ |-> preZ,
      preW |-> preW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, 0, 0, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenUZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
      pDenTW == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenUZ |-> pDenUZ,
      pDenTW |-> pDenTW]

amp(c, ds1, ds4) ==
  LET A == ((-2) * c.preZ * (c.gL * c.s34s[0][ds4] * c.a12a[ds1][0] - c.gR * c.s13s[ds1][0] * c.a24a[0][ds4])) / c.pDenUZ IN
  A + ((-2) * c.preW * (2 * c.MW * c.MW * c.s34s[0][ds4] * c.a12a[ds1][0] - c.me * c.me * c.s13s[ds1][0] * c.a24a[0][ds4])) / c.pDenTW

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      LET M == amp(c, j1, j2) IN
      AbsSq(M))) IN
  tot_3 / 2

=============================================================================
