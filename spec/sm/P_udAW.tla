------------------------------- MODULE P_udAW -------------------------------
(* Tree-level amplitude of the process class udAW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massW", "sinW", "widthW">>,
        setm |-> <<"massu", "massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      pre == (Sqrt(2) * e * e) / (MW * SW)
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.md, 0, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.mu, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.md, 0, Comb(mom, <<1, 0, 0, -1>>))
      prop == ((1 / 3) / pDenS) / pDenU - ((2 / 3) / pDenS) / pDenT
      propAp == 1 / pDenS + (2 / 3) / pDenT
      propAm == 1 / pDenS + (1 / 3) / pDenU
  IN k @@ [a42a |-> Bracket("angle", <<4, 2>>, p),
      s41s |-> Bracket("square", <<4, 1>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      s31s |-> Bracket("square", <<3, 1>>, p),
      s3123s |-> Bracket("square", <<3, 1, 2, 3>>, p),
      a3123a |-> Bracket("angle", <<3, 1, 2, 3>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      a32a |-> Bracket("angle", <<3, 2>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU,
      prop |-> prop,
      propAp |-> propAp,
      propAm |-> propAm]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds4>>) IN
  LET norm == SpinNorm(<<ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds4>>, i)
        ds4a == sp[1].a
        ds4b == sp[1].b IN
    LET A_4 == IF Plus(ds3)
        THEN norm * c.pre * c.a42a[ds4a][ds2] * c.s41s[ds4b][ds1] * c.s3123s[0][0] * c.prop - norm * c.pre * c.s34s[0][ds4a] * c.s31s[0][ds1] * c.a42a[ds4b][ds2] * c.propAp
        ELSE LET A_3 == IF Minus(ds3)
            THEN norm * c.pre * c.a42a[ds4a][ds2] * c.s41s[ds4b][ds1] * c.a3123a[0][0] * c.prop - norm * c.pre * c.a34a[0][ds4a] * c.a32a[0][ds2] * c.s41s[ds4b][ds1] * c.propAm
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 36

=============================================================================
