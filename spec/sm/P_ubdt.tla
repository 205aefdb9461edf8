------------------------------- MODULE P_ubdt -------------------------------
(* Tree-level amplitude of the process class ubdt: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "masst", "massb", "massW", "widthW", "sinW">>,
        setm |-> <<"massu", "massd", "masst", "massb", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      mt == q.masst
      mb == q.massb
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (4 * MW * MW * SW * SW)
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      mt |-> mt,
      mb |-> mb,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.mb, k.md, k.mt>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.massW, q.widthW, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      pDenT |-> pDenT]

amp(c, ds1, ds2, ds3, ds4) ==
  (c.preW * 2 * (2 * c.MW * c.MW * c.s34s[ds3][ds4] * c.a12a[ds1][ds2] - c.md * c.mt * c.a13a[ds1][ds3] * c.a24a[ds2][ds4] - c.mt * c.mu * c.s13s[ds1][ds3] * c.a24a[ds2][ds4] - c.mb * c.md * c.a13a[ds1][ds3] * c.s24s[ds2][ds4] - c.mu * c.mb * c.s13s[ds1][ds3] * c.s24s[ds2][ds4])) / c.pDenT

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 4

=============================================================================
