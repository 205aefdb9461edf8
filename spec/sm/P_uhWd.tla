------------------------------- MODULE P_uhWd -------------------------------
(* Tree-level amplitude of the process class uhWd: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massh", "massW", "widthW", "sinW">>,
        setm |-> <<"massu", "massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      mh == q.massh
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (2 * MW * MW * SW * SW)
      preu == mu * preW
      pred == md * preW
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      mh |-> mh,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW,
      preu |-> preu,
      pred |-> pred]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.mh, k.MW, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenU == Den(q.massW, q.widthW, Comb(mom, <<1, 0, 0, -1>>))
      pDenS == Den(q.massu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(q.massd, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      s323a |-> Bracket("square", <<3, 2, 3>>, p),
      s324a |-> Bracket("square", <<3, 2, 4>>, p),
      s123a |-> Bracket("square", <<1, 2, 3>>, p),
      pDenU |-> pDenU,
      pDenS |-> pDenS,
      pDenT |-> pDenT]

amp(c, ds1, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A == (norm * c.preW * (2 * c.MW * c.MW * c.a13a[ds1][ds3a] * c.s43s[ds4][ds3b] - (c.md * c.a14a[ds1][ds4] + c.mu * c.s14s[ds1][ds4]) * c.s323a[ds3a][ds3b])) / c.pDenU IN
    LET A_2 == A + (norm * c.pred * c.a13a[ds1][ds3a] * (2 * c.md * c.s43s[ds4][ds3b] - c.s324a[ds3b][ds4])) / c.pDenT IN
    A_2 + (norm * c.preu * c.s43s[ds4][ds3a] * (2 * c.mu * c.a13a[ds1][ds3b] + c.s123a[ds1][ds3b])) / c.pDenS)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, j1, j3, j4) IN
        3 * AbsSq(M)))) IN
  tot_4 / 6

=============================================================================
