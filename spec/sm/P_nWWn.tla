------------------------------- MODULE P_nWWn -------------------------------
(* Tree-level amplitude of the process class nWWn: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "masse", "massW", "sinW", "widthZ">>,
        setm |-> <<"masse", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      me == q.masse
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      pree == (2 * e * e) / (2 * MW * MW * SW * SW)
      preZ == (2 * e * e) / (2 * MW * MW * SW * SW)
  IN [e |-> e,
      me |-> me,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      pree |-> pree,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MW, k.MW, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDeneT == Den(q.masse, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenZU == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s431a |-> Bracket("square", <<4, 3, 1>>, p),
      pDeneT |-> pDeneT,
      pDenZU |-> pDenZU]

amp(c, ds3, ds2) ==
  LET n == NumSpinLoops(<<ds3, ds2>>) IN
  LET norm == SpinNorm(<<ds3, ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds2>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b IN
    LET A == ((-norm) * c.pree * c.s24s[ds2a][0] * c.a13a[0][ds3a] * (c.MW * c.a23a[ds2b][ds3b] + c.s312a[ds3b][ds2b])) / c.pDeneT IN
    A + ((-norm) * c.preZ * (c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] * c.s431a[0][0] + c.MW * (c.s23s[ds2a][ds3a] - c.a23a[ds2a][ds3a]) * (c.s34s[ds3b][0] * c.a12a[0][ds2b] - c.s24s[ds2b][0] * c.a13a[0][ds3b]))) / c.pDenZU)

amp2(c) ==
  LET tot_3 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      LET M == amp(c, j2, j3) IN
      AbsSq(M))) IN
  tot_3 / 3

=============================================================================
