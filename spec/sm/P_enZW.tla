------------------------------- MODULE P_enZW -------------------------------
(* Tree-level amplitude of the process class enZW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      CW == Sqrt(1 - SW * SW)
      MZ == MW / CW
      preW == (e * e) / (Sqrt(2) * MW * MW * MZ * MZ * SW * SW)
      pree == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      pren == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      CW |-> CW,
      MZ |-> MZ,
      preW |-> preW,
      pree |-> pree,
      pren |-> pren,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, 0, k.MZ, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.me, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(0, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a34a |-> Bracket("angle", <<3, 4>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s413a |-> Bracket("square", <<4, 1, 3>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A == (norm * c.preW * (2 * (c.MZ * c.a34a[ds3b][ds4a] + c.MW * c.s34s[ds3b][ds4a]) * c.MW * c.MW * c.a23a[0][ds3a] * c.s14s[ds1][ds4b] + 2 * (c.MW * c.a34a[ds3a][ds4b] + c.MZ * c.s34s[ds3a][ds4b]) * c.MW * c.MW * c.a24a[0][ds4a] * c.s13s[ds1][ds3b] + ((c.MZ * c.MZ - 2 * c.MW * c.MW) * c.me * c.a12a[ds1][0] + 2 * c.MW * c.MW * c.s132a[ds1][0]) * c.a34a[ds3a][ds4a] * c.s34s[ds3b][ds4b])) / c.pDenS IN
    LET A_2 == A + (norm * c.pree * c.a24a[0][ds4a] * (c.gR * c.me * c.a13a[ds1][ds3b] * c.s34s[ds3a][ds4b] + c.gL * ((-c.MZ) * c.s34s[ds3b][ds4b] + c.s413a[ds4b][ds3b]) * c.s13s[ds1][ds3a])) / c.pDenT IN
    A_2 + (norm * c.pren * c.a23a[0][ds3a] * c.s14s[ds1][ds4a] * (c.MW * c.s34s[ds3b][ds4b] + c.s314a[ds3b][ds4b])) / c.pDenU)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-2, 0, 2>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 2

=============================================================================
