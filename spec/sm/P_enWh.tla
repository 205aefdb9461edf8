------------------------------- MODULE P_enWh -------------------------------
(* Tree-level amplitude of the process class enWh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massh", "massW", "widthW", "sinW">>,
        setm |-> <<"masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mh == q.massh
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (2 * MW * MW * SW * SW)
      pree == me * preW
  IN [e |-> e,
      me |-> me,
      mh |-> mh,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW,
      pree |-> pree]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, 0, k.MW, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenWS == Den(q.massW, q.widthW, Comb(mom, <<1, 1, 0, 0>>))
      pDeneU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s343a |-> Bracket("square", <<3, 4, 3>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      pDenWS |-> pDenWS,
      pDeneU |-> pDeneU]

amp(c, ds1, ds3) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A == (norm * c.preW * (2 * c.MW * c.MW * c.a23a[0][ds3a] * c.s13s[ds1][ds3b] + c.me * c.a12a[ds1][0] * c.s343a[ds3a][ds3b])) / c.pDenWS IN
    A + (norm * c.pree * c.a23a[0][ds3a] * (2 * c.me * c.s13s[ds1][ds3b] - c.s341a[ds3b][ds1])) / c.pDeneU)

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      LET M == amp(c, j1, j3) IN
      AbsSq(M))) IN
  tot_3 / 2

=============================================================================
