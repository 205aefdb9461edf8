------------------------------- MODULE P_hgdd -------------------------------
(* Tree-level amplitude of the process class hgdd: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massd", "massh", "massW", "sinW">>,
        setm |-> <<"massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      md == q.massd
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      sqrt2 == Sqrt(2)
      pre == (e * gs * md) / (sqrt2 * MW * SW)
  IN [e |-> e,
      gs |-> gs,
      md |-> md,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      sqrt2 |-> sqrt2,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mh, 0, k.md, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(q.massd, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(q.massd, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      a213s |-> Bracket("angle", <<2, 1, 3>>, p),
      s214a |-> Bracket("square", <<2, 1, 4>>, p),
      a214s |-> Bracket("angle", <<2, 1, 4>>, p),
      s2312s |-> Bracket("square", <<2, 3, 1, 2>>, p),
      a2312a |-> Bracket("angle", <<2, 3, 1, 2>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds2, ds3, ds4) ==
  IF Plus(ds2)
  THEN (((-c.pre) * (c.mh * c.mh * c.s24s[0][ds4] * c.s23s[0][ds3] + c.md * c.s24s[0][ds4] * c.s213a[0][ds3] + c.md * c.s23s[0][ds3] * c.s214a[0][ds4] + c.a34a[ds3][ds4] * c.s2312s[0][0])) / c.pDenT) / c.pDenU
  ELSE IF Minus(ds2)
    THEN (((-c.pre) * (c.mh * c.mh * c.a24a[0][ds4] * c.a23a[0][ds3] + c.md * c.a24a[0][ds4] * c.a213s[0][ds3] + c.md * c.a23a[0][ds3] * c.a214s[0][ds4] + c.s34s[ds3][ds4] * c.a2312a[0][0])) / c.pDenT) / c.pDenU
    ELSE 0

amp2(c) ==
  LET tot_4 == Sum(<<-2, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, j2, j3, j4) IN
        4 * AbsSq(M)))) IN
  tot_4 / 16

amp2_gplus(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j3:
    Sum(<<-1, 1>>, LAMBDA j4:
      LET M == amp(c, 2, j3, j4) IN
      4 * AbsSq(M))) IN
  tot_3 / 8

=============================================================================
