------------------------------- MODULE P_AZuu -------------------------------
(* Tree-level amplitude of the process class AZuu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massW", "sinW">>,
        setm |-> <<"massu", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_Aminus", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qu == 2 / 3
      mu == q.massu
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (e * e * Qu) / (MW * SW)
      gL == (-2) * Qu * SW * SW + 1
      gR == (-2) * Qu * SW * SW
  IN [e |-> e,
      Qu |-> Qu,
      mu |-> mu,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MZ, k.mu, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.massu, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.massu, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a12a |-> Bracket("angle", <<1, 2>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s124a |-> Bracket("square", <<1, 2, 4>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s142a |-> Bracket("square", <<1, 4, 2>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      s241a |-> Bracket("square", <<2, 4, 1>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      s421a |-> Bracket("square", <<4, 2, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    LET A_6 == IF Plus(ds1)
        THEN LET A == ((norm * c.preTU * c.gL * (c.mu * c.s12s[0][ds2a] * c.a24a[ds2b][ds4] * c.s123a[0][ds3] - c.MZ * c.s13s[0][ds3] * c.a24a[ds2a][ds4] * c.s142a[0][ds2b])) / c.pDenT) / c.pDenU IN
        A + ((norm * c.preTU * c.gR * ((-c.mu) * c.s12s[0][ds2a] * c.a23a[ds2b][ds3] * c.s124a[0][ds4] + c.MZ * c.s14s[0][ds4] * c.a23a[ds2a][ds3] * c.s132a[0][ds2b])) / c.pDenT) / c.pDenU
        ELSE LET A_5 == IF Minus(ds1)
            THEN LET A_3 == ((norm * c.preTU * c.gR * c.s24s[ds2a][ds4] * ((-c.MZ) * c.a13a[0][ds3] * c.s241a[ds2b][0] + c.mu * c.a12a[0][ds2b] * c.s321a[ds3][0])) / c.pDenT) / c.pDenU IN
            A_3 + ((norm * c.preTU * c.gL * c.s23s[ds2a][ds3] * (c.MZ * c.a14a[0][ds4] * c.s231a[ds2b][0] - c.mu * c.a12a[0][ds2b] * c.s421a[ds4][0])) / c.pDenT) / c.pDenU
            ELSE 0 IN
        A_5 IN
    A_6)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 6

amp2_Aminus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, -2, j2, j3, j4) IN
        3 * AbsSq(M)))) IN
  tot_4 / 3

amp2_Aplus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, 2, j2, j3, j4) IN
        3 * AbsSq(M)))) IN
  tot_4 / 3

=============================================================================
