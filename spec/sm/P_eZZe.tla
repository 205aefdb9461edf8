------------------------------- MODULE P_eZZe -------------------------------
(* Tree-level amplitude of the process class eZZe: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTS == (e * e) / (2 * MW * MW * SW * SW)
      gL == 2 * SW * SW - 1
      gR == 2 * SW * SW
      preh == (e * e * me) / (2 * MW * MW * SW * SW)
  IN [e |-> e,
      me |-> me,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTS |-> preTS,
      gL |-> gL,
      gR |-> gR,
      preh |-> preh]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, k.MZ, k.MZ, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenU == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
      pDenT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenS == Den(q.masse, 0, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      pDenU |-> pDenU,
      pDenT |-> pDenT,
      pDenS |-> pDenS]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2, ds3>>) IN
  LET norm == SpinNorm(<<ds2, ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2, ds3>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b IN
    LET A == ((-norm) * c.preh * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * (c.s14s[ds1][ds4] - c.a14a[ds1][ds4])) / c.pDenU IN
    LET A_2 == A + (((-norm) * c.preTS * c.gL * c.gL * c.s24s[ds2a][ds4] * c.a13a[ds1][ds3a] * (c.MZ * c.a23a[ds2b][ds3b] + c.s312a[ds3b][ds2b])) / c.pDenT + (norm * c.preTS * c.gR * c.gR * c.a24a[ds2a][ds4] * c.s13s[ds1][ds3a] * (c.MZ * c.s23s[ds2b][ds3b] + c.s213a[ds2b][ds3b])) / c.pDenT + (norm * c.preTS * c.gL * c.gR * c.me * (c.s13s[ds1][ds3a] * c.s24s[ds2a][ds4] * c.a23a[ds2b][ds3b] - c.a13a[ds1][ds3a] * c.a24a[ds2a][ds4] * c.s23s[ds2b][ds3b])) / c.pDenT) IN
    A_2 + (((-norm) * c.preTS * c.gL * c.gL * c.s34s[ds3a][ds4] * c.a12a[ds1][ds2a] * (c.MZ * c.a23a[ds2b][ds3b] + c.s213a[ds2b][ds3b])) / c.pDenS + (norm * c.preTS * c.gR * c.gR * c.s12s[ds1][ds2a] * c.a34a[ds3a][ds4] * (c.MZ * c.s23s[ds2b][ds3b] + c.s312a[ds3b][ds2b])) / c.pDenS + (norm * c.preTS * c.gL * c.gR * c.me * ((-c.s12s[ds1][ds2a]) * c.s34s[ds3a][ds4] * c.a23a[ds2b][ds3b] + c.a12a[ds1][ds2a] * c.a34a[ds3a][ds4] * c.s23s[ds2b][ds3b])) / c.pDenS))

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 6

=============================================================================
