------------------------------- MODULE P_udWh -------------------------------
(* Tree-level amplitude of the process class udWh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massh", "massW", "widthW", "sinW">>,
        setm |-> <<"massu", "massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mu == q.massu
      md == q.massd
      mh == q.massh
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (2 * MW * MW * SW * SW)
      preu == mu * preW
      pred == md * preW
  IN [e |-> e,
      mu |-> mu,
      md |-> md,
      mh |-> mh,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW,
      preu |-> preu,
      pred |-> pred]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.md, k.MW, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massW, q.widthW, Comb(mom, <<1, 1, 0, 0>>))
      pDenU == Den(q.massu, 0, Comb(mom, <<1, 0, 0, -1>>))
      pDenT == Den(q.massd, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      s343a |-> Bracket("square", <<3, 4, 3>>, p),
      s342a |-> Bracket("square", <<3, 4, 2>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      pDenS |-> pDenS,
      pDenU |-> pDenU,
      pDenT |-> pDenT]

amp(c, ds1, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A == (norm * c.preW * (2 * c.MW * c.MW * c.a13a[ds1][ds3a] * c.s23s[ds2][ds3b] - (c.md * c.a12a[ds1][ds2] - c.mu * c.s12s[ds1][ds2]) * c.s343a[ds3a][ds3b])) / c.pDenS IN
    LET A_2 == A + (norm * c.pred * c.a13a[ds1][ds3a] * (2 * c.md * c.s23s[ds2][ds3b] - c.s342a[ds3b][ds2])) / c.pDenT IN
    A_2 + (norm * c.preu * c.s23s[ds2][ds3a] * (2 * c.mu * c.a13a[ds1][ds3b] - c.s143a[ds1][ds3b])) / c.pDenU)

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        3 * AbsSq(M)))) IN
  tot_4 / 36

=============================================================================
