------------------------------- MODULE P_ZhWW -------------------------------
(* Tree-level amplitude of the process class ZhWW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "massW", "sinW", "widthW", "widthZ">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      pre == (e * e) / (sqrt2 * MW * MW * SW * SW)
      preS == pre
      preTU == pre / (MZ * MZ)
  IN [e |-> e,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      MZ |-> MZ,
      pre |-> pre,
      preS |-> preS,
      preTU |-> preTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MZ, k.mh, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.MW, k.WW, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s131a |-> Bracket("square", <<1, 3, 1>>, p),
      s141a |-> Bracket("square", <<1, 4, 1>>, p),
      s431a |-> Bracket("square", <<4, 3, 1>>, p),
      s424a |-> Bracket("square", <<4, 2, 4>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s323a |-> Bracket("square", <<3, 2, 3>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s124a |-> Bracket("square", <<1, 2, 4>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      s421a |-> Bracket("square", <<4, 2, 1>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds1, ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds1, ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds3, ds4>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b
        ds4a == sp[3].a
        ds4b == sp[3].b IN
    LET A == (norm * c.preS * (c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b] * (c.s131a[ds1a][ds1b] - c.s141a[ds1a][ds1b]) + 2 * c.MW * (c.s13s[ds1a][ds3a] * c.a14a[ds1b][ds4a] + c.s14s[ds1a][ds4a] * c.a13a[ds1b][ds3a]) * (c.s34s[ds3b][ds4b] + c.a34a[ds3b][ds4b]))) / c.pDenS IN
    LET A_2 == A + (norm * c.preTU * ((2 * c.MW * c.MW * c.s13s[ds1a][ds3a] * c.a34a[ds3b][ds4a] * c.s431a[ds4b][ds1b] + c.MZ * c.MZ * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * c.s424a[ds4a][ds4b] + 2 * c.MW * c.MW * c.MW * c.s14s[ds1a][ds4a] * c.a13a[ds1b][ds3a] * c.a34a[ds3b][ds4b]) - 2 * c.MW * c.MW * c.MZ * c.s13s[ds1a][ds3a] * c.s14s[ds1b][ds4a] * c.a34a[ds3b][ds4b] - 2 * c.MW * c.MW * c.MZ * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.s34s[ds3b][ds4b])) / c.pDenT IN
    A_2 + (norm * c.preTU * ((2 * c.MW * c.MW * c.s14s[ds1a][ds4a] * c.a34a[ds3a][ds4b] * c.s341a[ds3b][ds1b] - c.MZ * c.MZ * c.s14s[ds1a][ds4a] * c.a14a[ds1b][ds4b] * c.s323a[ds3a][ds3b] + 2 * c.MW * c.MW * c.MW * c.s13s[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.a34a[ds3b][ds4b]) - 2 * c.MW * c.MW * c.MZ * c.s14s[ds1a][ds4a] * c.s13s[ds1b][ds3a] * c.a34a[ds3b][ds4b] - 2 * c.MW * c.MW * c.MZ * c.a14a[ds1a][ds4a] * c.a13a[ds1b][ds3a] * c.s34s[ds3b][ds4b])) / c.pDenU)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-2, 0, 2>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 3

=============================================================================
