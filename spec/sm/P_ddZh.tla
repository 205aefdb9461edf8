------------------------------- MODULE P_ddZh -------------------------------
(* Tree-level amplitude of the process class ddZh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massd", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      md == q.massd
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (sqrt2 * e * e * md) / (4 * MW * MW * SW * SW)
      gL == (2 / 3) * SW * SW - 1
      gR == (2 / 3) * SW * SW
      preZ == (sqrt2 * e * e) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      md |-> md,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, k.md, k.MZ, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(q.massd, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.massd, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      s343a |-> Bracket("square", <<3, 4, 3>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s243a |-> Bracket("square", <<2, 4, 3>>, p),
      s342a |-> Bracket("square", <<3, 4, 2>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A == (norm * c.preZ * (c.md * (c.gL - c.gR) * (c.a12a[ds1][ds2] - c.s12s[ds1][ds2]) * c.s343a[ds3a][ds3b] - 2 * c.MZ * c.MZ * (c.gL * c.s23s[ds2][ds3a] * c.a13a[ds1][ds3b] + c.gR * c.a23a[ds2][ds3a] * c.s13s[ds1][ds3b]))) / c.pDenS IN
    LET A_2 == A + (norm * c.preTU * (c.gR * c.s13s[ds1][ds3a] * ((-2) * c.md * c.a23a[ds2][ds3b] + c.s243a[ds2][ds3b]) + c.gL * c.a13a[ds1][ds3a] * ((-2) * c.md * c.s23s[ds2][ds3b] + c.s342a[ds3b][ds2]))) / c.pDenT IN
    A_2 + (norm * c.preTU * (c.gL * c.s23s[ds2][ds3a] * (c.s143a[ds1][ds3b] - 2 * c.md * c.a13a[ds1][ds3b]) + c.gR * c.a23a[ds2][ds3a] * (c.s341a[ds3b][ds1] - 2 * c.md * c.s13s[ds1][ds3b]))) / c.pDenU)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        3 * AbsSq(M)))) IN
  tot_4 / 36

=============================================================================
