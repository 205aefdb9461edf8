------------------------------- MODULE P_eeAZ -------------------------------
(* Tree-level amplitude of the process class eeAZ: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (sqrt2 * e * e) / (2 * MW * me * SW)
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, k.me, 0, k.MZ>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s3123s |-> Bracket("square", <<3, 1, 2, 3>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET combFactor_6 == IF Minus(ds4)
      THEN 1
      ELSE LET combFactor_2 == IF Plus(ds4)
          THEN 1
          ELSE LET n == 1 * 2 IN
          1 / c.sqrt2 IN
      LET n_5 == IF Plus(ds4)
          THEN 1
          ELSE LET n_4 == 1 * 2 IN
          LET combFactor_5 == 1 / c.sqrt2 IN
          n_4 IN
      combFactor_2 IN
  LET n_21 == IF Minus(ds4)
      THEN 1
      ELSE LET combFactor_18 == IF Plus(ds4)
          THEN 1
          ELSE LET n_16 == 1 * 2 IN
          1 / c.sqrt2 IN
      LET n_20 == IF Plus(ds4)
          THEN 1
          ELSE LET n_19 == 1 * 2 IN
          LET combFactor_21 == 1 / c.sqrt2 IN
          n_19 IN
      n_20 IN
  0

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 4

=============================================================================
