------------------------------- MODULE P_eehh -------------------------------
(* Tree-level amplitude of the process class eehh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massh", "widthh", "massW", "sinW">>,
        setm |-> <<"masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      prehS == (3 * e * e * me * mh * mh) / (4 * MW * MW * SW * SW)
      prehTU == (e * e * me * me) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      me |-> me,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      prehS |-> prehS,
      prehTU |-> prehTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, k.me, k.mh, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenSh == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenTe == Den(k.me, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenUe == Den(k.me, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      pDenSh |-> pDenSh,
      pDenTe |-> pDenTe,
      pDenUe |-> pDenUe]

amp(c, ds1, ds2) ==
  LET A == ((-c.prehS) * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2])) / c.pDenSh IN
  LET A_2 == A + ((-c.prehTU) * (2 * c.me * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2]) - c.s132a[ds1][ds2] - c.s231a[ds2][ds1])) / c.pDenTe IN
  A_2 + ((-c.prehTU) * (2 * c.me * (c.s12s[ds1][ds2] + c.a12a[ds1][ds2]) + c.s132a[ds1][ds2] + c.s231a[ds2][ds1])) / c.pDenUe

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      LET M == amp(c, j1, j2) IN
      AbsSq(M))) IN
  tot_3 / 8

=============================================================================
