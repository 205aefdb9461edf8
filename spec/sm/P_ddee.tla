------------------------------- MODULE P_ddee -------------------------------
(* Tree-level amplitude of the process class ddee: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massd", "masse", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massd", "masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      md == q.massd
      me == q.masse
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      preh == (e * e * md * me) / (4 * MW * MW * SW * SW)
      gLd == -1 + (2 / 3) * SW * SW
      gRd == (2 / 3) * SW * SW
      gLe == -1 + 2 * SW * SW
      gRe == 2 * SW * SW
      preZ == (e * e) / (4 * CW * CW * SW * SW)
      preZ0 == ((preZ * (gLd - gRd) * (gLe - gRe) * md * me) / MZ) / MZ
  IN [e |-> e,
      md |-> md,
      me |-> me,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      preh |-> preh,
      gLd |-> gLd,
      gRd |-> gRd,
      gLe |-> gLe,
      gRe |-> gRe,
      preZ |-> preZ,
      preZ0 |-> preZ0]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, k.md, k.me, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenSA == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenSh == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenSZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenSA |-> pDenSA,
      pDenSh |-> pDenSh,
      pDenSZ |-> pDenSZ]

amp(c, ds1, ds2, ds3, ds4) ==
  LET A == (((2 * c.e * c.e * 1) / 3) * (c.a13a[ds1][ds3] * c.s24s[ds2][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenSA IN
  LET A_2 == A + (c.preh * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2]) * (c.s34s[ds3][ds4] + c.a34a[ds3][ds4])) / c.pDenSh IN
  A_2 + (((-c.preZ0) * (c.a12a[ds1][ds2] - c.s12s[ds1][ds2]) * (c.a34a[ds3][ds4] - c.s34s[ds3][ds4])) / c.pDenSZ + (2 * c.preZ * (c.gLd * c.gLe * c.s23s[ds2][ds3] * c.a14a[ds1][ds4] + c.gLe * c.gRd * c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.gLd * c.gRe * c.s24s[ds2][ds4] * c.a13a[ds1][ds3] + c.gRd * c.gRe * c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenSZ)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 36

=============================================================================
