------------------------------- MODULE P_dgdh -------------------------------
(* Tree-level amplitude of the process class dgdh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massd", "massh", "massW", "sinW">>,
        setm |-> <<"massd", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      md == q.massd
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      sqrt2 == Sqrt(2)
      pre == (sqrt2 * e * gs * md) / (2 * MW * SW)
  IN [e |-> e,
      gs |-> gs,
      md |-> md,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      sqrt2 |-> sqrt2,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, 0, k.md, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(q.massd, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenU == Den(q.massd, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s243a |-> Bracket("square", <<2, 4, 3>>, p),
      a243s |-> Bracket("angle", <<2, 4, 3>>, p),
      s241a |-> Bracket("square", <<2, 4, 1>>, p),
      a241s |-> Bracket("angle", <<2, 4, 1>>, p),
      s2342s |-> Bracket("square", <<2, 3, 4, 2>>, p),
      a2342a |-> Bracket("angle", <<2, 3, 4, 2>>, p),
      pDenS |-> pDenS,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3) ==
  IF Plus(ds2)
  THEN ((c.pre * (c.mh * c.mh * c.s12s[ds1][0] * c.s23s[0][ds3] - c.md * c.s12s[ds1][0] * c.s243a[0][ds3] - c.md * c.s23s[0][ds3] * c.s241a[0][ds1] + c.a13a[ds1][ds3] * c.s2342s[0][0])) / c.pDenS) / c.pDenU
  ELSE IF Minus(ds2)
    THEN ((c.pre * (((-c.mh) * c.mh * c.a12a[ds1][0] * c.a23a[0][ds3] + c.md * c.a12a[ds1][0] * c.a243s[0][ds3] + c.md * c.a23a[0][ds3] * c.a241s[0][ds1]) - c.s13s[ds1][ds3] * c.a2342a[0][0])) / c.pDenS) / c.pDenU
    ELSE 0

amp2(c) ==
  LET tot_4 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        LET M == amp(c, j1, j2, j3) IN
        4 * AbsSq(M)))) IN
  tot_4 / 96

amp2_gplus(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j3:
      LET M == amp(c, j1, 2, j3) IN
      4 * AbsSq(M))) IN
  tot_3 / 48

=============================================================================
