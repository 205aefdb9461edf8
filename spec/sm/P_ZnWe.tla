------------------------------- MODULE P_ZnWe -------------------------------
(* Tree-level amplitude of the process class ZnWe: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthW">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      CW == Sqrt(1 - SW * SW)
      MZ == MW / CW
      preW == (e * e) / (Sqrt(2) * MW * MW * MZ * MZ * SW * SW)
      pree == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      pren == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      CW |-> CW,
      MZ |-> MZ,
      preW |-> preW,
      pree |-> pree,
      pren |-> pren,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MZ, 0, k.MW, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.me, 0, Comb(mom, <<1, 0, 0, -1>>))
      pDenS == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a21a |-> Bracket("angle", <<2, 1>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s41s |-> Bracket("square", <<4, 1>>, p),
      a42a |-> Bracket("angle", <<4, 2>>, p),
      s412a |-> Bracket("square", <<4, 1, 2>>, p),
      a41a |-> Bracket("angle", <<4, 1>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU,
      pDenS |-> pDenS]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds1, ds3>>) IN
  LET norm == SpinNorm(<<ds1, ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds3>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b IN
    LET A == ((-norm) * c.preW * (2 * ((-c.MZ) * c.a13a[ds1b][ds3a] + c.MW * c.s13s[ds1b][ds3a]) * c.MW * c.MW * c.a21a[0][ds1a] * c.s43s[ds4][ds3b] + 2 * (c.MW * c.a13a[ds1a][ds3b] - c.MZ * c.s13s[ds1a][ds3b]) * c.MW * c.MW * c.a23a[0][ds3a] * c.s41s[ds4][ds1b] + (((-c.MZ) * c.MZ + 2 * c.MW * c.MW) * c.me * c.a42a[ds4][0] - 2 * c.MW * c.MW * c.s412a[ds4][0]) * c.a13a[ds1a][ds3a] * c.s13s[ds1b][ds3b])) / c.pDenT IN
    LET A_2 == A + ((-norm) * c.pree * c.a23a[0][ds3a] * ((-c.gR) * c.me * c.a41a[ds4][ds1b] * c.s13s[ds1a][ds3b] + c.gL * (c.MZ * c.s13s[ds1b][ds3b] - c.s341a[ds3b][ds1b]) * c.s41s[ds4][ds1a])) / c.pDenU IN
    A_2 + ((-norm) * c.pren * c.a21a[0][ds1a] * c.s43s[ds4][ds3a] * (c.MW * c.s13s[ds1b][ds3b] - c.s143a[ds1b][ds3b])) / c.pDenS)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 3

=============================================================================
