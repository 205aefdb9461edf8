------------------------------- MODULE P_gWud -------------------------------
(* Tree-level amplitude of the process class gWud: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massu", "massd", "massW", "sinW">>,
        setm |-> <<"massu", "massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2", "amp2_gplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      mu == q.massu
      md == q.massd
      MW == q.massW
      SW == q.sinW
      pre == (Sqrt(2) * e * gs) / (MW * SW)
  IN [e |-> e,
      gs |-> gs,
      mu |-> mu,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MW, k.mu, k.md>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.mu, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.md, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s142a |-> Bracket("square", <<1, 4, 2>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      s431a |-> Bracket("square", <<4, 3, 1>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.pre * c.a24a[ds2a][ds4] * (c.MW * c.s13s[0][ds3] * c.s142a[0][ds2b] + c.s12s[0][ds2b] * (c.md * c.md * c.s13s[0][ds3] - c.mu * c.s143a[0][ds3]))) / c.pDenT) / c.pDenU
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.pre * c.s23s[ds2a][ds3] * ((-c.MW) * c.a14a[0][ds4] * c.s231a[ds2b][0] + c.a12a[0][ds2b] * ((-c.mu) * c.mu * c.a14a[0][ds4] + c.md * c.s431a[ds4][0]))) / c.pDenT) / c.pDenU
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-1, 1>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          4 * AbsSq(M))))) IN
  tot_5 / 48

amp2_gplus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-1, 1>>, LAMBDA j3:
      Sum(<<-1, 1>>, LAMBDA j4:
        LET M == amp(c, 1, j2, j3, j4) IN
        4 * AbsSq(M)))) IN
  tot_4 / 24

=============================================================================
