------------------------------- MODULE P_AAee -------------------------------
(* Tree-level amplitude of the process class AAee: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse">>,
        setm |-> <<"masse">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 2>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_Aplus_Aminus", "amp2_Aplus_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      sqrt2 == Sqrt(2)
  IN [e |-> e,
      me |-> me,
      sqrt2 |-> sqrt2]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, 0, k.me, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  IF Plus(ds1) /\ Plus(ds2)
  THEN ((2 * c.e * c.e * c.me * c.s12s[0][0] * c.s12s[0][0] * c.a34a[ds3][ds4]) / c.pDenT) / c.pDenU
  ELSE IF Minus(ds1) /\ Minus(ds2)
    THEN ((2 * c.e * c.e * c.me * c.a12a[0][0] * c.a12a[0][0] * c.s34s[ds3][ds4]) / c.pDenT) / c.pDenU
    ELSE IF Plus(ds1) /\ Minus(ds2)
      THEN (((-2) * c.e * c.e * (c.s13s[0][ds3] * c.a24a[0][ds4] + c.s14s[0][ds4] * c.a23a[0][ds3]) * c.s132a[0][0]) / c.pDenT) / c.pDenU
      ELSE IF Minus(ds1) /\ Plus(ds2)
        THEN (((-2) * c.e * c.e * (c.a13a[0][ds3] * c.s24s[0][ds4] + c.a14a[0][ds4] * c.s23s[0][ds3]) * c.s231a[0][0]) / c.pDenT) / c.pDenU
        ELSE 0

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 4

amp2_Aplus_Aminus(c) ==
  Sum(<<-1, 1>>, LAMBDA j3:
    Sum(<<-1, 1>>, LAMBDA j4:
      LET M == amp(c, 2, -2, j3, j4) IN
      AbsSq(M)))

amp2_Aplus_Aplus(c) ==
  Sum(<<-1, 1>>, LAMBDA j3:
    Sum(<<-1, 1>>, LAMBDA j4:
      LET M == amp(c, 2, 2, j3, j4) IN
      AbsSq(M)))

=============================================================================
