------------------------------- MODULE P_dhdh -------------------------------
(* Tree-level amplitude of the process class dhdh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massd", "massh", "widthh", "massW", "sinW">>,
        setm |-> <<"massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      md == q.massd
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      prehS == (3 * e * e * md * mh * mh) / (4 * MW * MW * SW * SW)
      prehTU == (e * e * md * md) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      md |-> md,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      prehS |-> prehS,
      prehTU |-> prehTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, k.mh, k.md, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenTh == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenSd == Den(k.md, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenUd == Den(k.md, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      s321a |-> Bracket("square", <<3, 2, 1>>, p),
      pDenTh |-> pDenTh,
      pDenSd |-> pDenSd,
      pDenUd |-> pDenUd]

amp(c, ds1, ds3) ==
  LET A == (c.prehS * (c.s13s[ds1][ds3] - c.a13a[ds1][ds3])) / c.pDenTh IN
  LET A_2 == A + (c.prehTU * (2 * c.md * (c.s13s[ds1][ds3] - c.a13a[ds1][ds3]) - c.s123a[ds1][ds3] + c.s321a[ds3][ds1])) / c.pDenSd IN
  A_2 + (c.prehTU * ((2 * c.md * (c.s13s[ds1][ds3] - c.a13a[ds1][ds3]) + c.s123a[ds1][ds3]) - c.s321a[ds3][ds1])) / c.pDenUd

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j3:
      LET M == amp(c, j1, j3) IN
      3 * AbsSq(M))) IN
  tot_3 / 6

=============================================================================
