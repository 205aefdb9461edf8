------------------------------- MODULE P_nnWW -------------------------------
(* Tree-level amplitude of the process class nnWW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthZ">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      pree == (e * e) / (MW * MW * SW * SW)
      preZ == (e * e) / (MW * MW * SW * SW)
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      pree |-> pree,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, 0, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDeneT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenZS == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      s231a |-> Bracket("square", <<2, 3, 1>>, p),
      pDeneT |-> pDeneT,
      pDenZS |-> pDenZS]

amp(c, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A == ((-norm) * c.pree * c.s24s[0][ds4a] * c.a13a[0][ds3a] * (c.MW * c.a34a[ds3b][ds4b] - c.s314a[ds3b][ds4b])) / c.pDeneT IN
    A + ((-norm) * c.preZ * (c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b] * c.s231a[0][0] + c.MW * (c.s34s[ds3a][ds4a] + c.a34a[ds3a][ds4a]) * (c.s23s[0][ds3b] * c.a14a[0][ds4b] + c.s24s[0][ds4b] * c.a13a[0][ds3b]))) / c.pDenZS)

amp2(c) ==
  Sum(<<-2, 0, 2>>, LAMBDA j3:
    Sum(<<-2, 0, 2>>, LAMBDA j4:
      LET M == amp(c, j3, j4) IN
      AbsSq(M)))

=============================================================================
