------------------------------- MODULE P_AnWe -------------------------------
(* Tree-level amplitude of the process class AnWe: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      pre == (Sqrt(2) * e * e) / (MW * SW)
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, 0, k.MW, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.me, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s13s |-> Bracket("square", <<1, 3>>, p),
      a42a |-> Bracket("angle", <<4, 2>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s41s |-> Bracket("square", <<4, 1>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      a21a |-> Bracket("angle", <<2, 1>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.pre * (c.me * c.s13s[0][ds3a] * c.a42a[ds4][0] + c.MW * c.a23a[0][ds3a] * c.s41s[ds4][0]) * (c.MW * c.s13s[0][ds3b] - c.s143a[0][ds3b])) / c.pDenT) / c.pDenU
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.pre * c.a21a[0][0] * c.s43s[ds4][ds3a] * (c.me * c.me * c.a13a[0][ds3b] - c.MW * c.s341a[ds3b][0])) / c.pDenT) / c.pDenU
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 2

amp2_Aplus(c) ==
  Sum(<<-2, 0, 2>>, LAMBDA j3:
    Sum(<<-1, 1>>, LAMBDA j4:
      LET M == amp(c, 1, j3, j4) IN
      AbsSq(M)))

=============================================================================
