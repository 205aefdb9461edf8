------------------------------- MODULE P_AuZu -------------------------------
(* Tree-level amplitude of the process class AuZu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massW", "sinW">>,
        setm |-> <<"massu", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-1, 1>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_Aminus", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qu == 2 / 3
      mu == q.massu
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (e * e * Qu) / (MW * SW)
      gLu == (-2) * Qu * SW * SW + 1
      gRu == (-2) * Qu * SW * SW
  IN [e |-> e,
      Qu |-> Qu,
      mu |-> mu,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gLu |-> gLu,
      gRu |-> gRu]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.mu, k.MZ, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenU == Den(q.massu, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s134a |-> Bracket("square", <<1, 3, 4>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a123s |-> Bracket("angle", <<1, 2, 3>>, p),
      a132s |-> Bracket("angle", <<1, 3, 2>>, p),
      a134s |-> Bracket("angle", <<1, 3, 4>>, p),
      a143s |-> Bracket("angle", <<1, 4, 3>>, p),
      pDenS |-> pDenS,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.preTU * ((-c.gLu) * c.a23a[ds2][ds3a] * (c.MZ * c.s14s[0][ds4] * c.s123a[0][ds3b] + c.mu * c.s13s[0][ds3b] * c.s134a[0][ds4]) - c.gRu * c.a34a[ds3a][ds4] * (c.mu * c.s13s[0][ds3b] * c.s132a[0][ds2] + c.MZ * c.s12s[0][ds2] * c.s143a[0][ds3b]))) / c.pDenU) / c.pDenS
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.preTU * ((-c.gRu) * c.s23s[ds2][ds3a] * (c.MZ * c.a14a[0][ds4] * c.a123s[0][ds3b] + c.mu * c.a13a[0][ds3b] * c.a134s[0][ds4]) - c.gLu * c.s34s[ds3a][ds4] * (c.mu * c.a13a[0][ds3b] * c.a132s[0][ds2] + c.MZ * c.a12a[0][ds2] * c.a143s[0][ds3b]))) / c.pDenU) / c.pDenS
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 12

amp2_Aminus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, -2, j2, j3, j4) IN
        3 * AbsSq(M)))) IN
  tot_4 / 6

amp2_Aplus(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, 2, j2, j3, j4) IN
        3 * AbsSq(M)))) IN
  tot_4 / 6

=============================================================================
