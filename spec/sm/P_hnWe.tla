------------------------------- MODULE P_hnWe -------------------------------
(* Tree-level amplitude of the process class hnWe: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massh", "massW", "widthW", "sinW">>,
        setm |-> <<"masse", "massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      mh == q.massh
      MW == q.massW
      WW == q.widthW
      SW == q.sinW
      preW == (e * e) / (2 * MW * MW * SW * SW)
      pree == me * preW
  IN [e |-> e,
      me |-> me,
      mh |-> mh,
      MW |-> MW,
      WW |-> WW,
      SW |-> SW,
      preW |-> preW,
      pree |-> pree]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mh, 0, k.MW, k.me>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenWT == Den(q.massW, q.widthW, Comb(mom, <<1, 0, -1, 0>>))
      pDeneU == Den(q.masse, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a23a |-> Bracket("angle", <<2, 3>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      a42a |-> Bracket("angle", <<4, 2>>, p),
      s313a |-> Bracket("square", <<3, 1, 3>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      pDenWT |-> pDenWT,
      pDeneU |-> pDeneU]

amp(c, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3>>) IN
  LET norm == SpinNorm(<<ds3>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b IN
    LET A == (norm * c.preW * (2 * c.MW * c.MW * c.a23a[0][ds3a] * c.s43s[ds4][ds3b] + c.me * c.a42a[ds4][0] * c.s313a[ds3a][ds3b])) / c.pDenWT IN
    A + (norm * c.pree * c.a23a[0][ds3a] * (2 * c.me * c.s43s[ds4][ds3b] - c.s314a[ds3b][ds4])) / c.pDeneU)

amp2(c) ==
  Sum(<<-2, 0, 2>>, LAMBDA j3:
    Sum(<<-1, 1>>, LAMBDA j4:
      LET M == amp(c, j3, j4) IN
      AbsSq(M)))

=============================================================================
