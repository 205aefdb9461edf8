------------------------------- MODULE P_uWWu -------------------------------
(* Tree-level amplitude of the process class uWWu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massu", "massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qf == 2 / 3
      mu == q.massu
      md == q.massd
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      pred == (2 * e * e) / (2 * MW * MW * SW * SW)
      preh == (2 * e * e * mu) / (4 * MW * MW * SW * SW)
      preZ == (e * e) / (2 * MW * MW * SW * SW)
      gL == (-2) * Qf * SW * SW + 1
      gR == (-2) * Qf * SW * SW
  IN [e |-> e,
      Qf |-> Qf,
      mu |-> mu,
      md |-> md,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      pred |-> pred,
      preh |-> preh,
      preZ |-> preZ,
      gL |-> gL,
      gR |-> gR]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.MW, k.MW, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenhU == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
      pDendT == Den(k.md, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDendS == Den(k.md, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenZU == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
      pDenAU == Den(0, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s431a |-> Bracket("square", <<4, 3, 1>>, p),
      s134a |-> Bracket("square", <<1, 3, 4>>, p),
      pDenhU |-> pDenhU,
      pDendT |-> pDendT,
      pDendS |-> pDendS,
      pDenZU |-> pDenZU,
      pDenAU |-> pDenAU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds2>>) IN
  LET norm == SpinNorm(<<ds3, ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds2>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b IN
    LET A == ((-norm) * c.preh * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * (c.s14s[ds1][ds4] - c.a14a[ds1][ds4])) / c.pDenhU IN
    LET A_2 == A + ((-norm) * c.pred * c.s24s[ds2a][ds4] * c.a13a[ds1][ds3a] * (c.MW * c.a23a[ds2b][ds3b] + c.s312a[ds3b][ds2b])) / c.pDendT IN
    LET A_3 == A_2 + ((((-norm) * c.e * c.e * c.Qf * 2) / c.MW) * ((-c.a13a[ds1][ds3a]) * c.s24s[ds2a][ds4] - c.s13s[ds1][ds3a] * c.a24a[ds2a][ds4] + c.a12a[ds1][ds2a] * c.s34s[ds3a][ds4] + c.s12s[ds1][ds2a] * c.a34a[ds3a][ds4]) * (c.s23s[ds2b][ds3b] - c.a23a[ds2b][ds3b])) / c.pDenAU - ((((norm * c.e * c.e * c.Qf * 2) / c.MW) / c.MW) * (c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * (c.s431a[ds4][ds1] - c.s134a[ds1][ds4]))) / c.pDenAU IN
    A_3 + ((-norm) * c.preZ * ((-(c.gL - c.gR)) * c.mu * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * (c.s14s[ds1][ds4] + c.a14a[ds1][ds4]) + 2 * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * (c.gL * c.s431a[ds4][ds1] - c.gR * c.s134a[ds1][ds4]) + 2 * c.MW * (c.s23s[ds2a][ds3a] - c.a23a[ds2a][ds3a]) * (c.gL * (c.s34s[ds3b][ds4] * c.a12a[ds1][ds2b] - c.s24s[ds2b][ds4] * c.a13a[ds1][ds3b]) - c.gR * (c.s13s[ds1][ds3b] * c.a24a[ds2b][ds4] - c.s12s[ds1][ds2b] * c.a34a[ds3b][ds4])))) / c.pDenZU)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
