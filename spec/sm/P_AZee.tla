------------------------------- MODULE P_AZee -------------------------------
(* Tree-level amplitude of the process class AZee: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_Aminus", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (2 * e * e) / (2 * MW * SW)
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MZ, k.me, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s1341s |-> Bracket("square", <<1, 3, 4, 1>>, p),
      a1341a |-> Bracket("angle", <<1, 3, 4, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    LET A_6 == IF Plus(ds1)
        THEN LET A == ((norm * c.preTU * c.s1341s[0][0] * (c.gR * c.s24s[ds2a][ds4] * c.a23a[ds2b][ds3] + c.gL * c.s23s[ds2a][ds3] * c.a24a[ds2b][ds4])) / c.pDenT) / c.pDenU IN
        A + norm * c.preTU * c.s12s[0][ds2a] * ((c.gR * c.s14s[0][ds4] * c.a23a[ds2b][ds3]) / c.pDenU - (c.gL * c.s13s[0][ds3] * c.a24a[ds2b][ds4]) / c.pDenT)
        ELSE LET A_5 == IF Minus(ds1)
            THEN LET A_3 == ((norm * c.preTU * c.a1341a[0][0] * (c.gR * c.s24s[ds2a][ds4] * c.a23a[ds2b][ds3] + c.gL * c.s23s[ds2a][ds3] * c.a24a[ds2b][ds4])) / c.pDenT) / c.pDenU IN
            A_3 + norm * c.preTU * c.a12a[0][ds2a] * ((c.gL * c.a14a[0][ds4] * c.s23s[ds2b][ds3]) / c.pDenU - (c.gR * c.a13a[0][ds3] * c.s24s[ds2b][ds4]) / c.pDenT)
            ELSE 0 IN
        A_5 IN
    A_6)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 6

amp2_Aminus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, -2, j2, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 3

amp2_Aplus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, 2, j2, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 3

=============================================================================
