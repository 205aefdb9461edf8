------------------------------- MODULE P_ZZZZ -------------------------------
(* Tree-level amplitude of the process class ZZZZ: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "sinW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      pre == (e * e) / (MW * MW * SW * SW)
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      MZ |-> MZ,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MZ, k.MZ, k.MZ, k.MZ>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.mh, k.wh, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds1, ds2, ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds1, ds2, ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds1, ds2, ds3, ds4>>, i)
        ds1a == sp[1].a
        ds1b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b
        ds3a == sp[3].a
        ds3b == sp[3].b
        ds4a == sp[4].a
        ds4b == sp[4].b IN
    LET A == (norm * c.pre * c.s12s[ds1a][ds2a] * c.a12a[ds1b][ds2b] * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b]) / c.pDenS IN
    LET A_2 == A + (norm * c.pre * c.s13s[ds1a][ds3a] * c.a13a[ds1b][ds3b] * c.s24s[ds2a][ds4a] * c.a24a[ds2b][ds4b]) / c.pDenT IN
    A_2 + (norm * c.pre * c.s14s[ds1a][ds4a] * c.a14a[ds1b][ds4b] * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b]) / c.pDenU)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
