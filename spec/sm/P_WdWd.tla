------------------------------- MODULE P_WdWd -------------------------------
(* Tree-level amplitude of the process class WdWd: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massd", "massu", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massd", "massu", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-1, 1>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qf == (-1) / 3
      md == q.massd
      mu == q.massu
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      pred == (2 * e * e) / (2 * MW * MW * SW * SW)
      preh == (2 * e * e * md) / (4 * MW * MW * SW * SW)
      preZ == (e * e) / (2 * MW * MW * SW * SW)
      gL == (-2) * Qf * SW * SW - 1
      gR == (-2) * Qf * SW * SW
  IN [e |-> e,
      Qf |-> Qf,
      md |-> md,
      mu |-> mu,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      pred |-> pred,
      preh |-> preh,
      preZ |-> preZ,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MW, k.md, k.MW, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenhT == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDendS == Den(k.mu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDendU == Den(k.mu, 0, Comb(mom, <<1, 0, 0, -1>>))
      pDenZT == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
      pDenAT == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s234a |-> Bracket("square", <<2, 3, 4>>, p),
      s432a |-> Bracket("square", <<4, 3, 2>>, p),
      pDenhT |-> pDenhT,
      pDendS |-> pDendS,
      pDendU |-> pDendU,
      pDenZT |-> pDenZT,
      pDenAT |-> pDenAT]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds1>>) IN
  LET norm == SpinNorm(<<ds3, ds1>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds1>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds1a == sp[2].a
        ds1b == sp[2].b IN
    LET A == (norm * c.preh * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * (c.s24s[ds2][ds4] - c.a24a[ds2][ds4])) / c.pDenhT IN
    LET A_2 == A + (norm * c.pred * c.s12s[ds1a][ds2] * c.a34a[ds3a][ds4] * ((-c.MW) * c.a13a[ds1b][ds3b] + c.s341a[ds3b][ds1b])) / c.pDendS IN
    LET A_3 == A_2 + ((((-norm) * c.e * c.e * c.Qf * 2) / c.MW) * (c.a34a[ds3a][ds4] * c.s12s[ds1a][ds2] + c.s34s[ds3a][ds4] * c.a12a[ds1a][ds2] + c.a14a[ds1a][ds4] * c.s23s[ds2][ds3a] + c.s14s[ds1a][ds4] * c.a23a[ds2][ds3a]) * (c.s13s[ds1b][ds3b] - c.a13a[ds1b][ds3b])) / c.pDenAT - ((((norm * c.e * c.e * c.Qf * 2) / c.MW) / c.MW) * (c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * (c.s234a[ds2][ds4] - c.s432a[ds4][ds2]))) / c.pDenAT IN
    A_3 + (norm * c.preZ * ((c.gL - c.gR) * c.md * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * (c.s24s[ds2][ds4] + c.a24a[ds2][ds4]) - 2 * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * (c.gL * c.s234a[ds2][ds4] - c.gR * c.s432a[ds4][ds2]) - 2 * c.MW * (c.s13s[ds1a][ds3a] - c.a13a[ds1a][ds3a]) * (c.gL * (c.s23s[ds2][ds3b] * c.a14a[ds1b][ds4] + c.s12s[ds1b][ds2] * c.a34a[ds3b][ds4]) + c.gR * (c.s34s[ds3b][ds4] * c.a12a[ds1b][ds2] + c.s14s[ds1b][ds4] * c.a23a[ds2][ds3b])))) / c.pDenZT)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
