------------------------------- MODULE P_WWWW -------------------------------
(* Tree-level amplitude of the process class WWWW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "widthZ", "sinW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      WZ == q.widthZ
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      preh == (e * e) / (MW * MW * SW * SW)
      preA == (e * e) / (MW * MW * MW)
      preZ == (e * e) / (2 * MW * MW * MZ * SW * SW)
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      WZ |-> WZ,
      SW |-> SW,
      CW |-> CW,
      MZ |-> MZ,
      preh |-> preh,
      preA |-> preA,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MW, k.MW, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenTh == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenUh == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
      pDenTZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
      pDenUZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
      pDenTA == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenUA == Den(0, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s431a |-> Bracket("square", <<4, 3, 1>>, p),
      s134a |-> Bracket("square", <<1, 3, 4>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a43a |-> Bracket("angle", <<4, 3>>, p),
      pDenTh |-> pDenTh,
      pDenUh |-> pDenUh,
      pDenTZ |-> pDenTZ,
      pDenUZ |-> pDenUZ,
      pDenTA |-> pDenTA,
      pDenUA |-> pDenUA]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds1, ds2, ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds1, ds2, ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds2, ds3, ds4>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b
        ds3a == sp[3].a
        ds3b == sp[3].b
        ds4a == sp[4].a
        ds4b == sp[4].b IN
    LET A == ((-norm) * c.preh * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * c.s24s[ds2a][ds4a] * c.a24a[ds2b][ds4b]) / c.pDenTh IN
    LET A_2 == A + ((-norm) * c.preh * c.s14s[ds1a][ds4a] * c.a14a[ds1b][ds4b] * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b]) / c.pDenUh IN
    LET A_3 == A_2 + (norm * c.preA * (((((2 * c.MW * c.a24a[ds2a][ds4a] * c.a34a[ds3a][ds4b] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] - c.MW * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.a24a[ds2b][ds4a] * c.s14s[ds1b][ds4b] + 2 * c.MW * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b] + c.MW * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s13s[ds1b][ds3b] * c.s24s[ds2a][ds4b] + c.MW * c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s13s[ds1b][ds3a] * c.s23s[ds2b][ds3b] + 2 * c.MW * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b]) - c.MW * c.a24a[ds2a][ds4a] * c.s13s[ds1a][ds3a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] - c.MW * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.a23a[ds2a][ds3b] * c.s24s[ds2b][ds4b] + 2 * c.MW * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b]) - 2 * c.MW * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] + c.MW * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b] + 2 * c.MW * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b]) - c.MW * c.a14a[ds1a][ds4a] * c.s13s[ds1b][ds3a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b] + c.MW * c.a13a[ds1a][ds3b] * c.a24a[ds2a][ds4a] * c.s12s[ds1b][ds2b] * c.s34s[ds3a][ds4b] + 2 * c.MW * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s24s[ds2a][ds4a] * c.s34s[ds3a][ds4b] + c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s23s[ds2b][ds3b] * c.s134a[ds1b][ds4b] + c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b]) - c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b] - c.a13a[ds1a][ds3a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b] - c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s431a[ds4b][ds1b] - c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s23s[ds2b][ds3b] * c.s431a[ds4b][ds1b] + c.a24a[ds2a][ds4a] * c.s13s[ds1a][ds3a] * c.s23s[ds2b][ds3b] * c.s431a[ds4b][ds1b] + c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s24s[ds2b][ds4a] * c.s431a[ds4b][ds1b])) / c.pDenTA IN
    LET A_4 == A_3 + (norm * c.preA * (((((((((-c.MW) * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4b] * c.s13s[ds1b][ds3b] - 2 * c.MW * c.a23a[ds2a][ds3b] * c.a34a[ds3a][ds4a] * c.s12s[ds1a][ds2b] * c.s14s[ds1b][ds4b] + 2 * c.MW * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b]) - c.MW * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2a][ds3b] - c.MW * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.a24a[ds2a][ds4b] * c.s23s[ds2b][ds3b] + c.MW * c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s13s[ds1b][ds3a] * c.s23s[ds2b][ds3b]) - 2 * c.MW * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] + 2 * c.MW * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] + 2 * c.MW * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] + c.MW * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b]) - c.MW * c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b] + 2 * c.MW * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b]) - c.MW * c.a13a[ds1a][ds3a] * c.s14s[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b] - c.MW * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3b] * c.s12s[ds1b][ds2b] * c.s34s[ds3a][ds4b] - 2 * c.MW * c.a12a[ds1a][ds2b] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s34s[ds3a][ds4b] + c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s23s[ds2b][ds3a] * c.s143a[ds1b][ds3b]) - c.a24a[ds2a][ds4a] * c.s14s[ds1a][ds4b] * c.s23s[ds2b][ds3a] * c.s143a[ds1b][ds3b] + c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s143a[ds1b][ds3b]) - c.a14a[ds1a][ds4a] * c.s23s[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s143a[ds1b][ds3b] - c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s14s[ds1a][ds4b] * c.s341a[ds3b][ds1b] + c.a24a[ds2a][ds4a] * c.s14s[ds1a][ds4b] * c.s23s[ds2b][ds3a] * c.s341a[ds3b][ds1b]) - c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s341a[ds3b][ds1b] + c.a23a[ds2a][ds3a] * c.s14s[ds1a][ds4a] * c.s24s[ds2b][ds4b] * c.s341a[ds3b][ds1b])) / c.pDenUA IN
    LET A_5 == A_4 + ((-norm) * c.preZ * ((2 * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s13s[ds1b][ds3b] * c.s24s[ds2a][ds4b] - c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] - c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] + ((((((-4) * c.a24a[ds2a][ds4a] * c.a34a[ds3a][ds4b] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] + 3 * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.a24a[ds2b][ds4a] * c.s14s[ds1b][ds4b]) - 4 * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b] - 2 * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s13s[ds1b][ds3b] * c.s24s[ds2a][ds4b] - 3 * c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s13s[ds1b][ds3a] * c.s23s[ds2b][ds3b] - 3 * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] + c.a24a[ds2a][ds4a] * c.s13s[ds1a][ds3a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] + 3 * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.a23a[ds2a][ds3b] * c.s24s[ds2b][ds4b]) - 3 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] + 2 * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b]) - c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b] - 4 * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b] + c.a14a[ds1a][ds4a] * c.s13s[ds1b][ds3a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b]) - 4 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s24s[ds2a][ds4a] * c.s34s[ds3a][ds4b]) * c.CW * c.CW) * c.MZ + (((-3) * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s23s[ds2b][ds3b] * c.s134a[ds1b][ds4b] - 3 * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b] + c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b] + c.a13a[ds1a][ds3a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4a] * c.s134a[ds1b][ds4b] + 3 * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s431a[ds4b][ds1b] + 3 * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s23s[ds2b][ds3b] * c.s431a[ds4b][ds1b]) - c.a24a[ds2a][ds4a] * c.s13s[ds1a][ds3a] * c.s23s[ds2b][ds3b] * c.s431a[ds4b][ds1b] - c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s24s[ds2b][ds4a] * c.s431a[ds4b][ds1b]) * c.CW)) / c.pDenTZ IN
    A_5 + ((-norm) * c.preZ * (((-2) * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2a][ds3b] - c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] - c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] + (((((3 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4b] * c.s13s[ds1b][ds3b] + 4 * c.a23a[ds2a][ds3b] * c.a34a[ds3a][ds4a] * c.s12s[ds1a][ds2b] * c.s14s[ds1b][ds4b]) - 4 * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b] + 2 * c.a12a[ds1a][ds2b] * c.a34a[ds3a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2a][ds3b] + 3 * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.a24a[ds2a][ds4b] * c.s23s[ds2b][ds3b]) - c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s13s[ds1b][ds3a] * c.s23s[ds2b][ds3b] + 2 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b]) - 3 * c.a13a[ds1a][ds3a] * c.a24a[ds2a][ds4a] * c.s14s[ds1b][ds4b] * c.s23s[ds2b][ds3b] - 3 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s13s[ds1b][ds3b] * c.s24s[ds2b][ds4b] - 3 * c.a13a[ds1a][ds3a] * c.a23a[ds2a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b] + c.a23a[ds2a][ds3a] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4a] * c.s24s[ds2b][ds4b]) - 4 * c.a13a[ds1a][ds3a] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b] + c.a13a[ds1a][ds3a] * c.s14s[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b] + 4 * c.a12a[ds1a][ds2b] * c.a14a[ds1b][ds4a] * c.s23s[ds2a][ds3b] * c.s34s[ds3a][ds4b]) * c.CW * c.CW) * c.MZ + (((((-3) * c.a14a[ds1a][ds4a] * c.a24a[ds2a][ds4b] * c.s23s[ds2b][ds3a] * c.s143a[ds1b][ds3b] + c.a24a[ds2a][ds4a] * c.s14s[ds1a][ds4b] * c.s23s[ds2b][ds3a] * c.s143a[ds1b][ds3b]) - 3 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s143a[ds1b][ds3b] + c.a14a[ds1a][ds4a] * c.s23s[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s143a[ds1b][ds3b] + 3 * c.a23a[ds2a][ds3a] * c.a24a[ds2b][ds4a] * c.s14s[ds1a][ds4b] * c.s341a[ds3b][ds1b]) - c.a24a[ds2a][ds4a] * c.s14s[ds1a][ds4b] * c.s23s[ds2b][ds3a] * c.s341a[ds3b][ds1b] + 3 * c.a14a[ds1a][ds4a] * c.a23a[ds2a][ds3a] * c.s24s[ds2b][ds4b] * c.s341a[ds3b][ds1b]) - c.a23a[ds2a][ds3a] * c.s14s[ds1a][ds4a] * c.s24s[ds2b][ds4b] * c.s341a[ds3b][ds1b]) * c.CW)) / c.pDenUZ)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
