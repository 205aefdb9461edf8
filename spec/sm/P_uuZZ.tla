------------------------------- MODULE P_uuZZ -------------------------------
(* Tree-level amplitude of the process class uuZZ: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massf", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massf", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qf == 2 / 3
      mf == q.massf
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (e * e) / (2 * MW * MW * SW * SW)
      gL == (-2) * Qf * SW * SW + 1
      gR == (-2) * Qf * SW * SW
      preh == (e * e * mf) / (2 * MW * MW * SW * SW)
  IN [e |-> e,
      Qf |-> Qf,
      mf |-> mf,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU,
      gL |-> gL,
      gR |-> gR,
      preh |-> preh]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mf, k.mf, k.MZ, k.MZ>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(q.massf, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.massf, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      s413a |-> Bracket("square", <<4, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A == (norm * c.preh * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b] * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2])) / c.pDenS IN
    LET A_2 == A + ((norm * c.preTU * c.gL * c.gL * c.s24s[ds2][ds4a] * c.a13a[ds1][ds3a] * (c.MZ * c.a34a[ds3b][ds4b] - c.s314a[ds3b][ds4b])) / c.pDenT + (norm * c.preTU * c.gR * c.gR * c.a24a[ds2][ds4a] * c.s13s[ds1][ds3a] * (c.MZ * c.s34s[ds3b][ds4b] - c.s413a[ds4b][ds3b])) / c.pDenT) - (norm * c.preTU * c.gL * c.gR * c.mf * (c.s13s[ds1][ds3a] * c.s24s[ds2][ds4a] * c.a34a[ds3b][ds4b] + c.a13a[ds1][ds3a] * c.a24a[ds2][ds4a] * c.s34s[ds3b][ds4b])) / c.pDenT IN
    A_2 + (((-norm) * c.preTU * c.gL * c.gL * c.s23s[ds2][ds3a] * c.a14a[ds1][ds4a] * (c.MZ * c.a34a[ds3b][ds4b] + c.s413a[ds4b][ds3b])) / c.pDenU - (norm * c.preTU * c.gR * c.gR * c.s14s[ds1][ds4a] * c.a23a[ds2][ds3a] * (c.MZ * c.s34s[ds3b][ds4b] + c.s314a[ds3b][ds4b])) / c.pDenU + (norm * c.preTU * c.gL * c.gR * c.mf * (c.s14s[ds1][ds4a] * c.s23s[ds2][ds3a] * c.a34a[ds3b][ds4b] + c.a14a[ds1][ds4a] * c.a23a[ds2][ds3a] * c.s34s[ds3b][ds4b])) / c.pDenU))

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 72

=============================================================================
