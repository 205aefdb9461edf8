------------------------------- MODULE P_eeAh -------------------------------
(* Tree-level amplitude of the process class eeAh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massh", "vev">>,
        setm |-> <<"masse", "massh">>,
        setv |-> TRUE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mh == q.massh
      v == q.vev
      sqrt2 == Sqrt(2)
  IN [e |-> e,
      me |-> me,
      mh |-> mh,
      v |-> v,
      sqrt2 |-> sqrt2]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, k.me, 0, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s342a |-> Bracket("square", <<3, 4, 2>>, p),
      a342s |-> Bracket("angle", <<3, 4, 2>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      a341s |-> Bracket("angle", <<3, 4, 1>>, p),
      s3243s |-> Bracket("square", <<3, 2, 4, 3>>, p),
      a3243a |-> Bracket("angle", <<3, 2, 4, 3>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3) ==
  IF Plus(ds3)
  THEN ((((c.sqrt2 * c.e * c.me) / c.v) * ((-c.mh) * c.mh * c.s13s[ds1][0] * c.s23s[ds2][0] + c.me * c.s13s[ds1][0] * c.s342a[0][ds2] + c.me * c.s23s[ds2][0] * c.s341a[0][ds1] + c.a12a[ds1][ds2] * c.s3243s[0][0])) / c.pDenT) / c.pDenU
  ELSE IF Minus(ds3)
    THEN ((((c.sqrt2 * c.e * c.me) / c.v) * ((-c.mh) * c.mh * c.a13a[ds1][0] * c.a23a[ds2][0] + c.me * c.a13a[ds1][0] * c.a342s[0][ds2] + c.me * c.a23a[ds2][0] * c.a341s[0][ds1] + c.s12s[ds1][ds2] * c.a3243a[0][0])) / c.pDenT) / c.pDenU
    ELSE 0

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        AbsSq(M)))) IN
  tot_4 / 4

=============================================================================
