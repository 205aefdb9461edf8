------------------------------- MODULE P_gggg -------------------------------
(* Tree-level amplitude of the process class gggg: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"gcharge">>,
        setm |-> <<>>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 2>>, <<-2, 2>>, <<-2, 2>>>>]>>,
        squares |-> <<"amp2", "amp2_Feynman", "amp2_gminus_gminus", "amp2_gminus_gplus", "amp2_gplus_gminus", "amp2_gplus_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET gs == q.gcharge
  IN [gs |-> gs]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, 0, 0, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Re(Den(0, 0, Comb(mom, <<1, 1, 0, 0>>)))
      pDenT == Re(Den(0, 0, Comb(mom, <<1, 0, -1, 0>>)))
      pDenU == Re(Den(0, 0, Comb(mom, <<1, 0, 0, -1>>)))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s41s |-> Bracket("square", <<4, 1>>, p),
      a41a |-> Bracket("angle", <<4, 1>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s1432s |-> Bracket("square", <<1, 4, 3, 2>>, p),
      a1432a |-> Bracket("angle", <<1, 4, 3, 2>>, p),
      s3214s |-> Bracket("square", <<3, 2, 1, 4>>, p),
      a3214a |-> Bracket("angle", <<3, 2, 1, 4>>, p),
      a3124a |-> Bracket("angle", <<3, 1, 2, 4>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  IF Plus(ds1) /\ Plus(ds2) /\ Plus(ds3) /\ Plus(ds4)
  THEN 0
  ELSE IF ((Plus(ds1) /\ Plus(ds2) /\ Plus(ds3) /\ Minus(ds4)) \/ (Plus(ds1) /\ Plus(ds2) /\ Minus(ds3) /\ Plus(ds4)) \/ (Plus(ds1) /\ Minus(ds2) /\ Plus(ds3) /\ Plus(ds4)) \/ (Minus(ds1) /\ Plus(ds2) /\ Plus(ds3) /\ Plus(ds4)))
    THEN 0
    ELSE IF Plus(ds1) /\ Plus(ds2) /\ Minus(ds3) /\ Minus(ds4)
      THEN 2 * c.gs * c.gs * c.s12s[0][0] * c.s12s[0][0] * c.a34a[0][0] * c.a34a[0][0]
      ELSE IF Plus(ds1) /\ Minus(ds2) /\ Plus(ds3) /\ Minus(ds4)
        THEN 2 * c.gs * c.gs * c.s13s[0][0] * c.s13s[0][0] * c.a24a[0][0] * c.a24a[0][0]
        ELSE IF Plus(ds1) /\ Minus(ds2) /\ Minus(ds3) /\ Plus(ds4)
          THEN 2 * c.gs * c.gs * c.s41s[0][0] * c.s41s[0][0] * c.a23a[0][0] * c.a23a[0][0]
          ELSE IF Minus(ds1) /\ Plus(ds2) /\ Plus(ds3) /\ Minus(ds4)
            THEN 2 * c.gs * c.gs * c.s23s[0][0] * c.s23s[0][0] * c.a41a[0][0] * c.a41a[0][0]
            ELSE IF Minus(ds1) /\ Plus(ds2) /\ Minus(ds3) /\ Plus(ds4)
              THEN 2 * c.gs * c.gs * c.s24s[0][0] * c.s24s[0][0] * c.a13a[0][0] * c.a13a[0][0]
              ELSE IF Minus(ds1) /\ Minus(ds2) /\ Plus(ds3) /\ Plus(ds4)
                THEN 2 * c.gs * c.gs * c.s34s[0][0] * c.s34s[0][0] * c.a12a[0][0] * c.a12a[0][0]
                ELSE IF ((Plus(ds1) /\ Minus(ds2) /\ Minus(ds3) /\ Minus(ds4)) \/ (Minus(ds1) /\ Plus(ds2) /\ Minus(ds3) /\ Minus(ds4)) \/ (Minus(ds1) /\ Minus(ds2) /\ Plus(ds3) /\ Minus(ds4)) \/ (Minus(ds1) /\ Minus(ds2) /\ Minus(ds3) /\ Plus(ds4)))
                  THEN 0
                  ELSE IF Minus(ds1) /\ Minus(ds2) /\ Minus(ds3) /\ Minus(ds4)
                    THEN 0
                    ELSE Undefined

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 2>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        Sum(<<-2, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M) * (36 / Sq(c.pDenS * c.pDenT) + 36 / Sq(c.pDenS * c.pDenU) + 36 / Sq(c.pDenT * c.pDenU)))))) IN
  tot_5 / 512

amp2_Feynman(c) ==
  LET pre == (9 / 4) * c.gs * c.gs * c.gs * c.gs IN
  LET M2 == pre * (3 - ((c.pDenT * c.pDenU) / c.pDenS) / c.pDenS - ((c.pDenS * c.pDenU) / c.pDenT) / c.pDenT - ((c.pDenS * c.pDenT) / c.pDenU) / c.pDenU) IN
  Abs(M2)

amp2_gminus_gminus(c) ==
  LET tot_3 == Sum(<<-2, 2>>, LAMBDA j3:
    Sum(<<-2, 2>>, LAMBDA j4:
      LET M == amp(c, -2, -2, j3, j4) IN
      AbsSq(M) * (36 / Sq(c.pDenS * c.pDenT) + 36 / Sq(c.pDenS * c.pDenU) + 36 / Sq(c.pDenT * c.pDenU)))) IN
  tot_3 / 128

amp2_gminus_gplus(c) ==
  LET tot_3 == Sum(<<-2, 2>>, LAMBDA j3:
    Sum(<<-2, 2>>, LAMBDA j4:
      LET M == amp(c, -2, 2, j3, j4) IN
      AbsSq(M) * (36 / Sq(c.pDenS * c.pDenT) + 36 / Sq(c.pDenS * c.pDenU) + 36 / Sq(c.pDenT * c.pDenU)))) IN
  tot_3 / 128

amp2_gplus_gminus(c) ==
  LET tot_3 == Sum(<<-2, 2>>, LAMBDA j3:
    Sum(<<-2, 2>>, LAMBDA j4:
      LET M == amp(c, 2, -2, j3, j4) IN
      AbsSq(M) * (36 / Sq(c.pDenS * c.pDenT) + 36 / Sq(c.pDenS * c.pDenU) + 36 / Sq(c.pDenT * c.pDenU)))) IN
  tot_3 / 128

amp2_gplus_gplus(c) ==
  LET tot_3 == Sum(<<-2, 2>>, LAMBDA j3:
    Sum(<<-2, 2>>, LAMBDA j4:
      LET M == amp(c, 2, 2, j3, j4) IN
      AbsSq(M) * (36 / Sq(c.pDenS * c.pDenT) + 36 / Sq(c.pDenS * c.pDenU) + 36 / Sq(c.pDenT * c.pDenU)))) IN
  tot_3 / 128

=============================================================================
