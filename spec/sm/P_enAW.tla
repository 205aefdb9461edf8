------------------------------- MODULE P_enAW -------------------------------
(* Tree-level amplitude of the process class enAW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      pre == (Sqrt(2) * e * e) / (MW * SW)
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, 0, 0, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.me, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s413a |-> Bracket("square", <<4, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds4>>) IN
  LET norm == SpinNorm(<<ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds4>>, i)
        ds4a == sp[1].a
        ds4b == sp[1].b IN
    LET A_4 == IF Plus(ds3)
        THEN (((-norm) * c.pre * (c.me * c.s34s[0][ds4a] * c.a12a[ds1][0] - c.MW * c.a24a[0][ds4a] * c.s13s[ds1][0]) * (c.MW * c.s34s[0][ds4b] + c.s314a[0][ds4b])) / c.pDenS) / c.pDenT
        ELSE LET A_3 == IF Minus(ds3)
            THEN ((norm * c.pre * c.a23a[0][0] * c.s14s[ds1][ds4a] * (c.me * c.me * c.a34a[0][ds4b] + c.MW * c.s413a[ds4b][0])) / c.pDenS) / c.pDenT
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 2>>, LAMBDA j3:
      Sum(<<-2, 0, 2>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 2

=============================================================================
