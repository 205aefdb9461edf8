------------------------------- MODULE P_menn -------------------------------
(* Tree-level amplitude of the process class menn: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massmu", "massW", "widthW", "sinW">>,
        setm |-> <<"masse", "massmu", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mm == q.massmu
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
  IN [e |-> e,
      me |-> me,
      mm |-> mm,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mm, k.me, 0, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenU == Den(q.massW, q.widthW, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s24s |-> Bracket("square", <<2, 4>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      pDenU |-> pDenU]

amp(c, ds1, ds2) ==
  (((((c.e * c.e) / 2) / c.SW) / c.SW) * (2 * c.MW * c.MW * c.s24s[ds2][0] * c.a13a[ds1][0] + c.mm * c.me * c.s14s[ds1][0] * c.a23a[ds2][0])) / (c.MW * c.MW * c.pDenU)

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      LET M == amp(c, j1, j2) IN
      AbsSq(M))) IN
  tot_3 / 4

=============================================================================
