------------------------------- MODULE P_mnen -------------------------------
(* Tree-level amplitude of the process class mnen: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massmu", "massW", "widthW", "sinW">>,
        setm |-> <<"masse", "massmu", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mm == q.massmu
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      me |-> me,
      mm |-> mm,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mm, 0, k.me, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenU == Den(q.massW, q.widthW, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      pDenU |-> pDenU]

amp(c, ds1, ds3) ==
  ((-c.preW) * 2 * (2 * c.MW * c.MW * c.s34s[ds3][0] * c.a12a[ds1][0] + c.mm * c.me * c.s14s[ds1][0] * c.a23a[0][ds3])) / c.pDenU

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      LET M == amp(c, j1, j2) IN
      AbsSq(M))) IN
  tot_3 / 2

=============================================================================
