------------------------------- MODULE P_udnl -------------------------------
(* Tree-level amplitude of the process class udnl: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "masstau", "massW", "widthW", "sinW">>,
        setm |-> <<"massu", "massd", "masstau", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      ml == q.masstau
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      ml |-> ml,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.md, 0, k.ml>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massW, q.widthW, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenS |-> pDenS]

amp(c, ds1, ds2, ds4) ==
  (((((c.e * c.e) / 2) / c.SW) / c.SW) * ((2 * c.MW * c.MW * c.s14s[ds1][ds4] * c.a23a[ds2][0] + c.ml * c.md * c.a34a[0][ds4] * c.s12s[ds1][ds2]) - c.mu * c.ml * c.a12a[ds1][ds2] * c.a34a[0][ds4])) / (c.MW * c.MW * c.pDenS)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, j1, j2, j4) IN
        AbsSq(M)))) IN
  tot_4 / 12

=============================================================================
