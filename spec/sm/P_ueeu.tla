------------------------------- MODULE P_ueeu -------------------------------
(* Tree-level amplitude of the process class ueeu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "masse", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massu", "masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      me == q.masse
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      preh == (e * e * mu * me) / (4 * MW * MW * SW * SW)
      gLu == 1 - (4 / 3) * SW * SW
      gRu == ((-4) / 3) * SW * SW
      gLe == -1 + 2 * SW * SW
      gRe == 2 * SW * SW
      preZ == (e * e) / (4 * CW * CW * SW * SW)
      preZ0 == ((preZ * (gLu - gRu) * (gLe - gRe) * mu * me) / MZ) / MZ
  IN [e |-> e,
      mu |-> mu,
      me |-> me,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      preh |-> preh,
      gLu |-> gLu,
      gRu |-> gRu,
      gLe |-> gLe,
      gRe |-> gRe,
      preZ |-> preZ,
      preZ0 |-> preZ0]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.me, k.me, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenUA == Den(0, 0, Comb(mom, <<1, 0, 0, -1>>))
      pDenUh == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
      pDenUZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenUA |-> pDenUA,
      pDenUh |-> pDenUh,
      pDenUZ |-> pDenUZ]

amp(c, ds1, ds2, ds3, ds4) ==
  LET A == ((((-2) * c.e * c.e * 2) / 3) * (((-c.a13a[ds1][ds3]) * c.s24s[ds2][ds4] + c.a12a[ds1][ds2] * c.s34s[ds3][ds4]) - c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.s12s[ds1][ds2] * c.a34a[ds3][ds4])) / c.pDenUA IN
  LET A_2 == A + ((-c.preh) * (c.s14s[ds1][ds4] - c.a14a[ds1][ds4]) * (c.s23s[ds2][ds3] - c.a23a[ds2][ds3])) / c.pDenUh IN
  A_2 + ((c.preZ0 * (c.a14a[ds1][ds4] + c.s14s[ds1][ds4]) * (c.a23a[ds2][ds3] + c.s23s[ds2][ds3])) / c.pDenUZ + (2 * c.preZ * (c.gLu * c.gLe * c.s34s[ds3][ds4] * c.a12a[ds1][ds2] - c.gLe * c.gRu * c.s13s[ds1][ds3] * c.a24a[ds2][ds4] - c.gLu * c.gRe * c.s24s[ds2][ds4] * c.a13a[ds1][ds3] + c.gRu * c.gRe * c.s12s[ds1][ds2] * c.a34a[ds3][ds4])) / c.pDenUZ)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 12

=============================================================================
