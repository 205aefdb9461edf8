------------------------------- MODULE P_udtb -------------------------------
(* Tree-level amplitude of the process class udtb: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "masst", "massb", "massW", "widthW", "sinW">>,
        setm |-> <<"massu", "massd", "masst", "massb", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      mt == q.masst
      mb == q.massb
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      mt |-> mt,
      mb |-> mb,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.md, k.mt, k.mb>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massW, q.widthW, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [a14a |-> Bracket("angle", <<1, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenS |-> pDenS]

amp(c, ds1, ds2, ds3, ds4) ==
  (((((c.e * c.e) / 2) / c.SW) / c.SW) * ((2 * c.MW * c.MW * c.a14a[ds1][ds4] * c.s23s[ds2][ds3] - c.md * c.mt * c.a34a[ds3][ds4] * c.a12a[ds1][ds2] + c.mt * c.mu * c.s12s[ds1][ds2] * c.a34a[ds3][ds4] + c.mb * c.md * c.s34s[ds3][ds4] * c.a12a[ds1][ds2]) - c.mu * c.mb * c.s12s[ds1][ds2] * c.s34s[ds3][ds4])) / (c.MW * c.MW * c.pDenS)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          9 * AbsSq(M))))) IN
  tot_5 / 36

=============================================================================
