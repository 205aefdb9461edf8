------------------------------- MODULE P_gugu -------------------------------
(* Tree-level amplitude of the process class gugu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"gcharge", "massu">>,
        setm |-> <<"massu">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp_Num", args |-> <<<<-2, 2>>, <<-1, 1>>, <<-2, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_gminus", "amp2_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET gs == q.gcharge
      mu == q.massu
      sqrt2 == Sqrt(2)
  IN [gs |-> gs,
      mu |-> mu,
      sqrt2 |-> sqrt2]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.mu, 0, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Re(Den(0, 0, Comb(mom, <<1, 0, -1, 0>>)))
      pDenU == Re(Den(q.massu, 0, Comb(mom, <<1, 0, 0, -1>>)))
      pDenS == Re(Den(q.massu, 0, Comb(mom, <<1, 1, 0, 0>>)))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU,
      pDenS |-> pDenS]

amp_Num(c, ds1, ds2, ds3, ds4) ==
  IF Plus(ds1) /\ Plus(ds3)
  THEN 2 * c.gs * c.gs * c.mu * c.s13s[0][0] * c.s13s[0][0] * c.a24a[ds2][ds4]
  ELSE IF Minus(ds1) /\ Minus(ds3)
    THEN (-2) * c.gs * c.gs * c.mu * c.a13a[0][0] * c.a13a[0][0] * c.s24s[ds2][ds4]
    ELSE IF Plus(ds1) /\ Minus(ds3)
      THEN 2 * c.gs * c.gs * (c.s14s[0][ds4] * c.a23a[ds2][0] + c.s12s[0][ds2] * c.a34a[0][ds4]) * c.s143a[0][0]
      ELSE IF Minus(ds1) /\ Plus(ds3)
        THEN (-2) * c.gs * c.gs * (c.a14a[0][ds4] * c.s23s[ds2][0] + c.a12a[0][ds2] * c.s34s[0][ds4]) * c.s341a[0][0]
        ELSE 0

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M_Num == amp_Num(c, j1, j2, j3, j4) IN
          AbsSq(M_Num) * ((6 / Sq(c.pDenT * c.pDenU) + 6 / Sq(c.pDenT * c.pDenS)) - (2 / 3) / Sq(c.pDenU * c.pDenS)))))) IN
  tot_5 / 96

amp2_gminus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j2:
    Sum(<<-2, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M_Num == amp_Num(c, -2, j2, j3, j4) IN
        AbsSq(M_Num) * ((6 / Sq(c.pDenT * c.pDenU) + 6 / Sq(c.pDenT * c.pDenS)) - (2 / 3) / Sq(c.pDenU * c.pDenS))))) IN
  tot_4 / 48

amp2_gplus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j2:
    Sum(<<-2, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M_Num == amp_Num(c, 2, j2, j3, j4) IN
        AbsSq(M_Num) * ((6 / Sq(c.pDenT * c.pDenU) + 6 / Sq(c.pDenT * c.pDenS)) - (2 / 3) / Sq(c.pDenU * c.pDenS))))) IN
  tot_4 / 48

=============================================================================
