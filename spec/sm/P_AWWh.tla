------------------------------- MODULE P_AWWh -------------------------------
(* Tree-level amplitude of the process class AWWh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "massW", "sinW", "widthW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      pre == (sqrt2 * e * e) / (MW * SW)
  IN [e |-> e,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MW, k.MW, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s142a |-> Bracket("square", <<1, 4, 2>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s241a |-> Bracket("square", <<2, 4, 1>>, p),
      pDenT |-> pDenT,
      pDenS |-> pDenS]

amp(c, ds1, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds3, ds2>>) IN
  LET norm == SpinNorm(<<ds3, ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds2>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.pre * c.a23a[ds2a][ds3a] * (c.mh * c.mh * c.s13s[0][ds3b] * c.s12s[0][ds2b] - c.MW * (c.s12s[0][ds2b] * c.s143a[0][ds3b] - c.s13s[0][ds3b] * c.s142a[0][ds2b]))) / c.pDenT) / c.pDenS
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.pre * c.s23s[ds2a][ds3a] * (c.mh * c.mh * c.a13a[0][ds3b] * c.a12a[0][ds2b] - c.MW * (c.a12a[0][ds2b] * c.s341a[ds3b][0] - c.a13a[0][ds3b] * c.s241a[ds2b][0]))) / c.pDenT) / c.pDenS
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        AbsSq(M)))) IN
  tot_4 / 6

amp2_Aplus(c) ==
  LET tot_3 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      LET M == amp(c, 2, j2, j3) IN
      AbsSq(M))) IN
  tot_3 / 3

=============================================================================
