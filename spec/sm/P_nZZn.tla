------------------------------- MODULE P_nZZn -------------------------------
(* Tree-level amplitude of the process class nZZn: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massW", "sinW", "widthZ">>,
        setm |-> <<"massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preTU == (e * e) / (2 * MW * MW * SW * SW)
  IN [e |-> e,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preTU |-> preTU]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MZ, k.MZ, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(0, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenS == Den(0, 0, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      pDenT |-> pDenT,
      pDenS |-> pDenS]

amp(c, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds2, ds3>>) IN
  LET norm == SpinNorm(<<ds2, ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2, ds3>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b IN
    LET A == ((-norm) * c.preTU * c.s24s[ds2a][0] * c.a13a[0][ds3a] * (c.MZ * c.a23a[ds2b][ds3b] + c.s312a[ds3b][ds2b])) / c.pDenT IN
    A + ((-norm) * c.preTU * c.s34s[ds3a][0] * c.a12a[0][ds2a] * (c.MZ * c.a23a[ds2b][ds3b] + c.s213a[ds2b][ds3b])) / c.pDenS)

amp2(c) ==
  LET tot_3 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      LET M == amp(c, j2, j3) IN
      AbsSq(M))) IN
  tot_3 / 3

=============================================================================
