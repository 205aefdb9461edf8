------------------------------- MODULE P_hhhh -------------------------------
(* Tree-level amplitude of the process class hhhh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "sinW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      preh == (3 * e * e * mh * mh) / (4 * MW * MW * SW * SW)
      prehSTU == 3 * mh * mh * preh
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      preh |-> preh,
      prehSTU |-> prehSTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mh, k.mh, k.mh, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c) ==
  c.prehSTU * (1 / c.pDenS + 1 / c.pDenT + 1 / c.pDenU) + c.preh

amp2(c) ==
  LET M == amp(c) IN
  LET tot == AbsSq(M) IN
  tot / 2

=============================================================================
