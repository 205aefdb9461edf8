------------------------------- MODULE P_dggd -------------------------------
(* Tree-level amplitude of the process class dggd: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"gcharge", "massd">>,
        setm |-> <<"massd">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp_Num", args |-> <<<<-1, 1>>, <<-2, 2>>, <<-2, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_gminus", "amp2_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET gs == q.gcharge
      md == q.massd
      sqrt2 == Sqrt(2)
  IN [gs |-> gs,
      md |-> md,
      sqrt2 |-> sqrt2]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, 0, 0, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Re(Den(q.massd, 0, Comb(mom, <<1, 1, 0, 0>>)))
      pDenT == Re(Den(q.massd, 0, Comb(mom, <<1, 0, -1, 0>>)))
      pDenU == Re(Den(0, 0, Comb(mom, <<1, 0, 0, -1>>)))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp_Num(c, ds1, ds2, ds3, ds4) ==
  IF Plus(ds3) /\ Plus(ds2)
  THEN (-2) * c.gs * c.gs * c.md * c.s23s[0][0] * c.s23s[0][0] * c.a14a[ds1][ds4]
  ELSE IF Minus(ds3) /\ Minus(ds2)
    THEN 2 * c.gs * c.gs * c.md * c.a23a[0][0] * c.a23a[0][0] * c.s14s[ds1][ds4]
    ELSE IF Plus(ds3) /\ Minus(ds2)
      THEN 2 * c.gs * c.gs * (c.s13s[ds1][0] * c.a24a[0][ds4] - c.s34s[0][ds4] * c.a12a[ds1][0]) * c.s312a[0][0]
      ELSE IF Minus(ds3) /\ Plus(ds2)
        THEN (-2) * c.gs * c.gs * (c.a13a[ds1][0] * c.s24s[0][ds4] - c.a34a[0][ds4] * c.s12s[ds1][0]) * c.s213a[0][0]
        ELSE 0

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 2>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M_Num == amp_Num(c, j1, j2, j3, j4) IN
          AbsSq(M_Num) * ((6 / Sq(c.pDenU * c.pDenT) + 6 / Sq(c.pDenU * c.pDenS)) - (2 / 3) / Sq(c.pDenT * c.pDenS)))))) IN
  tot_5 / 96

amp2_gminus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M_Num == amp_Num(c, j1, -2, j3, j4) IN
        AbsSq(M_Num) * ((6 / Sq(c.pDenU * c.pDenT) + 6 / Sq(c.pDenU * c.pDenS)) - (2 / 3) / Sq(c.pDenT * c.pDenS))))) IN
  tot_4 / 48

amp2_gplus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M_Num == amp_Num(c, j1, 2, j3, j4) IN
        AbsSq(M_Num) * ((6 / Sq(c.pDenU * c.pDenT) + 6 / Sq(c.pDenU * c.pDenS)) - (2 / 3) / Sq(c.pDenT * c.pDenS))))) IN
  tot_4 / 48

=============================================================================
