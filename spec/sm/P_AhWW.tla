------------------------------- MODULE P_AhWW -------------------------------
(* Tree-level amplitude of the process class AhWW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "massW", "sinW", "widthW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      pre == (sqrt2 * e * e) / (MW * SW)
  IN [e |-> e,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.mh, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.MW, k.WW, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s124a |-> Bracket("square", <<1, 2, 4>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      s421a |-> Bracket("square", <<4, 2, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.pre * c.a34a[ds3a][ds4a] * (c.mh * c.mh * c.s13s[0][ds3b] * c.s14s[0][ds4b] + c.MW * (c.s14s[0][ds4b] * c.s123a[0][ds3b] + c.s13s[0][ds3b] * c.s124a[0][ds4b]))) / c.pDenT) / c.pDenU
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.pre * c.s34s[ds3a][ds4a] * (c.mh * c.mh * c.a13a[0][ds3b] * c.a14a[0][ds4b] + c.MW * (c.a14a[0][ds4b] * c.s321a[ds3b][0] + c.a13a[0][ds3b] * c.s421a[ds4b][0]))) / c.pDenT) / c.pDenU
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-2, 0, 2>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 2

amp2_Aplus(c) ==
  Sum(<<-2, 0, 2>>, LAMBDA j3:
    Sum(<<-2, 0, 2>>, LAMBDA j4:
      LET M == amp(c, 2, j3, j4) IN
      AbsSq(M)))

=============================================================================
