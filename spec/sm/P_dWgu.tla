------------------------------- MODULE P_dWgu -------------------------------
(* Tree-level amplitude of the process class dWgu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "gscharge", "massu", "massd", "massW", "sinW">>,
        setm |-> <<"massu", "massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-2, 0, 2>>, <<-2, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      gs == q.gscharge
      mu == q.massu
      md == q.massd
      MW == q.massW
      SW == q.sinW
      pre == (Sqrt(2) * e * gs) / (MW * SW)
  IN [e |-> e,
      gs |-> gs,
      mu |-> mu,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, k.MW, 0, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.md, 0, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [a21a |-> Bracket("angle", <<2, 1>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      s32s |-> Bracket("square", <<3, 2>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      s3413s |-> Bracket("square", <<3, 4, 1, 3>>, p),
      a32a |-> Bracket("angle", <<3, 2>>, p),
      a31a |-> Bracket("angle", <<3, 1>>, p),
      a3413a |-> Bracket("angle", <<3, 4, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    LET A_4 == IF Plus(ds3)
        THEN (((-norm) * c.pre * c.a21a[ds2a][ds1] * c.s24s[ds2b][ds4] * c.s3413s[0][0]) / c.pDenS) / c.pDenT - (norm * c.pre * c.s32s[0][ds2a] * c.s34s[0][ds4] * c.a21a[ds2b][ds1]) / c.pDenS
        ELSE LET A_3 == IF Minus(ds3)
            THEN (((-norm) * c.pre * c.a21a[ds2a][ds1] * c.s24s[ds2b][ds4] * c.a3413a[0][0]) / c.pDenS) / c.pDenT + (norm * c.pre * c.a32a[0][ds2a] * c.a31a[0][ds1] * c.s24s[ds2b][ds4]) / c.pDenT
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          4 * AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
