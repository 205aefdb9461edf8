------------------------------- MODULE P_WWWW2 -------------------------------
(* Tree-level amplitude of the process class WWWW2: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "widthZ", "sinW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      WZ == q.widthZ
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      preh == (e * e) / (MW * MW * SW * SW)
      preA == (e * e) / (2 * MW * MW * MW)
      preZ == (e * e) / (2 * MW * MW * MZ * SW * SW)
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      WZ |-> WZ,
      SW |-> SW,
      CW |-> CW,
      MZ |-> MZ,
      preh |-> preh,
      preA |-> preA,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MW, k.MW, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenTh == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenSh == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenTZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
      pDenSZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
      pDenTA == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenSA == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s32s |-> Bracket("square", <<3, 2>>, p),
      a32a |-> Bracket("angle", <<3, 2>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a43a |-> Bracket("angle", <<4, 3>>, p),
      s42s |-> Bracket("square", <<4, 2>>, p),
      a42a |-> Bracket("angle", <<4, 2>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      pDenTh |-> pDenTh,
      pDenSh |-> pDenSh,
      pDenTZ |-> pDenTZ,
      pDenSZ |-> pDenSZ,
      pDenTA |-> pDenTA,
      pDenSA |-> pDenSA]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds1, ds2, ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds1, ds2, ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds2, ds3, ds4>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b
        ds3a == sp[3].a
        ds3b == sp[3].b
        ds4a == sp[4].a
        ds4b == sp[4].b IN
    LET A == ((-norm) * c.preh * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.a42a[ds4b][ds2b]) / c.pDenTh IN
    LET A_2 == A + ((-norm) * c.preh * c.s12s[ds1a][ds2a] * c.a12a[ds1b][ds2b] * c.s43s[ds4a][ds3a] * c.a43a[ds4b][ds3b]) / c.pDenSh IN
    LET A_3 == A_2 + ((-norm) * c.preZ * ((2 * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s13s[ds1b][ds3b] * c.s42s[ds4a][ds2b] - c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] - c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a] + ((((((-3) * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1b][ds2b] + 4 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] + 4 * c.a32a[ds3a][ds2a] * c.a42a[ds4a][ds2b] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b]) - 2 * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s13s[ds1b][ds3b] * c.s42s[ds4a][ds2b] + 4 * c.a13a[ds1a][ds3b] * c.a14a[ds1b][ds4b] * c.s32s[ds3a][ds2a] * c.s42s[ds4a][ds2b] + 3 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] + c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s42s[ds4b][ds2a]) - 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] + 2 * c.a13a[ds1a][ds3a] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2b]) - 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a] + 3 * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] + c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] + 4 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a]) - c.a12a[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a]) * c.CW * c.CW) * c.MZ + ((((-3) * c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s132a[ds1b][ds2b] + c.a43a[ds4a][ds3a] * c.s13s[ds1a][ds3b] * c.s42s[ds4b][ds2a] * c.s132a[ds1b][ds2b] + 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s132a[ds1b][ds2b]) - c.a13a[ds1a][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s132a[ds1b][ds2b] - 3 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s13s[ds1a][ds3b] * c.s231a[ds2b][ds1b] + c.a43a[ds4a][ds3a] * c.s13s[ds1a][ds3b] * c.s42s[ds4b][ds2a] * c.s231a[ds2b][ds1b] + 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s231a[ds2b][ds1b]) - c.a42a[ds4a][ds2a] * c.s13s[ds1a][ds3b] * c.s43s[ds4b][ds3a] * c.s231a[ds2b][ds1b]) * c.CW)) / c.pDenTZ IN
    LET A_4 == A_3 + ((-norm) * c.preZ * (((-2) * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4a][ds3b] - c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] - c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a] + ((3 * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s13s[ds1b][ds3b] + 4 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] + 4 * c.a32a[ds3a][ds2a] * c.a43a[ds4a][ds3b] * c.s12s[ds1a][ds2b] * c.s14s[ds1b][ds4b] + 2 * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4a][ds3b] + 4 * c.a12a[ds1a][ds2b] * c.a14a[ds1b][ds4b] * c.s32s[ds3a][ds2a] * c.s43s[ds4a][ds3b] + 3 * c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s42s[ds4b][ds2a]) - 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] - c.a43a[ds4a][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] - 3 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] - 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a] + c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] + 4 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] + c.a13a[ds1a][ds3b] * c.s12s[ds1b][ds2b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] + 2 * c.a12a[ds1a][ds2a] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3b]) * c.CW * c.CW) * c.MZ + ((3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s123a[ds1b][ds3b] - 3 * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b] - c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b] + c.a12a[ds1a][ds2b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b] + 3 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s321a[ds3b][ds1b]) - 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s321a[ds3b][ds1b] - c.a43a[ds4a][ds3a] * c.s12s[ds1a][ds2b] * c.s42s[ds4b][ds2a] * c.s321a[ds3b][ds1b] + c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s43s[ds4b][ds3a] * c.s321a[ds3b][ds1b]) * c.CW)) / c.pDenSZ IN
    LET A_5 == A_4 + (norm * c.preA * (((((((3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1b][ds2b] - 4 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] - 4 * c.a32a[ds3a][ds2a] * c.a42a[ds4a][ds2b] * c.s13s[ds1a][ds3b] * c.s14s[ds1b][ds4b] + 2 * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s13s[ds1b][ds3b] * c.s42s[ds4a][ds2b]) - 4 * c.a13a[ds1a][ds3b] * c.a14a[ds1b][ds4b] * c.s32s[ds3a][ds2a] * c.s42s[ds4a][ds2b] - 3 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] - c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s42s[ds4b][ds2a] + 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a]) - 2 * c.a13a[ds1a][ds3a] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2b] + 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a]) - 3 * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] - c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] - 4 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] + c.a12a[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a]) * c.MW + 3 * c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s132a[ds1b][ds2b]) - c.a43a[ds4a][ds3a] * c.s13s[ds1a][ds3b] * c.s42s[ds4b][ds2a] * c.s132a[ds1b][ds2b] - 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s132a[ds1b][ds2b] + c.a13a[ds1a][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s132a[ds1b][ds2b] + 3 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s13s[ds1a][ds3b] * c.s231a[ds2b][ds1b]) - c.a43a[ds4a][ds3a] * c.s13s[ds1a][ds3b] * c.s42s[ds4b][ds2a] * c.s231a[ds2b][ds1b] - 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s231a[ds2b][ds1b] + c.a42a[ds4a][ds2a] * c.s13s[ds1a][ds3b] * c.s43s[ds4b][ds3a] * c.s231a[ds2b][ds1b])) / c.pDenTA IN
    A_5 + (norm * c.preA * ((((((-3) * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s13s[ds1b][ds3b] - 4 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] - 4 * c.a32a[ds3a][ds2a] * c.a43a[ds4a][ds3b] * c.s12s[ds1a][ds2b] * c.s14s[ds1b][ds4b] - 2 * c.a14a[ds1a][ds4b] * c.a32a[ds3a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4a][ds3b] - 4 * c.a12a[ds1a][ds2b] * c.a14a[ds1b][ds4b] * c.s32s[ds3a][ds2a] * c.s43s[ds4a][ds3b] - 3 * c.a13a[ds1a][ds3b] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s42s[ds4b][ds2a] + 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] + c.a43a[ds4a][ds3a] * c.s12s[ds1a][ds2b] * c.s13s[ds1b][ds3b] * c.s42s[ds4b][ds2a] + 3 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] + 3 * c.a13a[ds1a][ds3b] * c.a42a[ds4a][ds2a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3a]) - c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s13s[ds1b][ds3b] * c.s43s[ds4b][ds3a] - 4 * c.a12a[ds1a][ds2b] * c.a13a[ds1b][ds3b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] - c.a13a[ds1a][ds3b] * c.s12s[ds1b][ds2b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] - 2 * c.a12a[ds1a][ds2a] * c.a43a[ds4a][ds3a] * c.s12s[ds1b][ds2b] * c.s43s[ds4b][ds3b]) * c.MW - 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s123a[ds1b][ds3b] + 3 * c.a12a[ds1a][ds2b] * c.a42a[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b] + c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b]) - c.a12a[ds1a][ds2b] * c.s42s[ds4a][ds2a] * c.s43s[ds4b][ds3a] * c.s123a[ds1b][ds3b] - 3 * c.a42a[ds4a][ds2a] * c.a43a[ds4b][ds3a] * c.s12s[ds1a][ds2b] * c.s321a[ds3b][ds1b] + 3 * c.a12a[ds1a][ds2b] * c.a43a[ds4a][ds3a] * c.s42s[ds4b][ds2a] * c.s321a[ds3b][ds1b] + c.a43a[ds4a][ds3a] * c.s12s[ds1a][ds2b] * c.s42s[ds4b][ds2a] * c.s321a[ds3b][ds1b]) - c.a42a[ds4a][ds2a] * c.s12s[ds1a][ds2b] * c.s43s[ds4b][ds3a] * c.s321a[ds3b][ds1b])) / c.pDenSA)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 9

=============================================================================
