------------------------------ MODULE P_eeeeQED ------------------------------
(* Tree-level amplitude of the process class eeeeQED: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse">>,
        setm |-> <<"masse">>,
        setv |-> FALSE, at |-> TRUE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
  IN [e |-> e,
      me |-> me]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.me, k.me, k.me, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a13a |-> Bracket("angle", <<1, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT]

amp(c, ds1, ds2, ds3, ds4) ==
  ((-2) * c.e * c.e * (c.a13a[ds1][ds3] * c.s24s[ds2][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s13s[ds1][ds3] * c.a24a[ds2][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenS - (2 * c.e * c.e * (c.a12a[ds1][ds2] * c.s34s[ds3][ds4] + c.a14a[ds1][ds4] * c.s23s[ds2][ds3] + c.s12s[ds1][ds2] * c.a34a[ds3][ds4] + c.s14s[ds1][ds4] * c.a23a[ds2][ds3])) / c.pDenT

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 4

=============================================================================
