------------------------------- MODULE P_ZWWh -------------------------------
(* Tree-level amplitude of the process class ZWWh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "massW", "sinW", "widthW", "widthZ">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      pre == (sqrt2 * e * e) / (2 * MW * MW * SW * SW)
      preS == pre
      preTU == pre / (MZ * MZ)
  IN [e |-> e,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      MZ |-> MZ,
      pre |-> pre,
      preS |-> preS,
      preTU |-> preTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MZ, k.MW, k.MW, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s131a |-> Bracket("square", <<1, 3, 1>>, p),
      s121a |-> Bracket("square", <<1, 2, 1>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      s242a |-> Bracket("square", <<2, 4, 2>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      s343a |-> Bracket("square", <<3, 4, 3>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s142a |-> Bracket("square", <<1, 4, 2>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s241a |-> Bracket("square", <<2, 4, 1>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds1, ds3, ds2>>) IN
  LET norm == SpinNorm(<<ds1, ds3, ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds3, ds2>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b
        ds2a == sp[3].a
        ds2b == sp[3].b IN
    LET A == (norm * c.preS * ((-c.s23s[ds2a][ds3a]) * c.a23a[ds2b][ds3b] * (c.s131a[ds1a][ds1b] + c.s121a[ds1a][ds1b]) + 2 * c.MW * (c.s13s[ds1a][ds3a] * c.a12a[ds1b][ds2a] - c.s12s[ds1a][ds2a] * c.a13a[ds1b][ds3a]) * (c.s23s[ds2b][ds3b] - c.a23a[ds2b][ds3b]))) / c.pDenU IN
    LET A_2 == A + (norm * c.preTU * ((2 * c.MW * c.MW * c.s13s[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s231a[ds2b][ds1b] + c.MZ * c.MZ * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * c.s242a[ds2a][ds2b] + 2 * c.MW * c.MW * c.MW * c.s12s[ds1a][ds2a] * c.a13a[ds1b][ds3a] * c.a23a[ds2b][ds3b]) - 2 * c.MW * c.MW * c.MZ * c.s13s[ds1a][ds3a] * c.s12s[ds1b][ds2a] * c.a23a[ds2b][ds3b] - 2 * c.MW * c.MW * c.MZ * c.a13a[ds1a][ds3a] * c.a12a[ds1b][ds2a] * c.s23s[ds2b][ds3b])) / c.pDenT IN
    A_2 + ((-norm) * c.preTU * (2 * c.MW * c.MW * c.s12s[ds1a][ds2a] * c.a23a[ds2b][ds3a] * c.s321a[ds3b][ds1b] + c.MZ * c.MZ * c.s12s[ds1a][ds2a] * c.a12a[ds1b][ds2b] * c.s343a[ds3a][ds3b] + 2 * c.MW * c.MW * c.MW * c.s13s[ds1a][ds3a] * c.a12a[ds1b][ds2a] * c.a23a[ds2b][ds3b] + 2 * c.MW * c.MW * c.MZ * c.s12s[ds1a][ds2a] * c.s13s[ds1b][ds3a] * c.a23a[ds2b][ds3b] + 2 * c.MW * c.MW * c.MZ * c.a12a[ds1a][ds2a] * c.a13a[ds1b][ds3a] * c.s23s[ds2b][ds3b])) / c.pDenS)

amp2(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        AbsSq(M)))) IN
  tot_4 / 9

=============================================================================
