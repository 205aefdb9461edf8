------------------------------- MODULE P_hWWh -------------------------------
(* Tree-level amplitude of the process class hWWh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "sinW", "widthW">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      pre == (2 * e * e) / (4 * MW * MW * SW * SW)
      preS == 3 * pre * mh * mh
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      pre |-> pre,
      preS |-> preS]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mh, k.MW, k.MW, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.mh, k.wh, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s312a |-> Bracket("square", <<3, 1, 2>>, p),
      s213a |-> Bracket("square", <<2, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds2, ds3) ==
  LET n == NumSpinLoops(<<ds3, ds2>>) IN
  LET norm == SpinNorm(<<ds3, ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds2>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds2a == sp[2].a
        ds2b == sp[2].b IN
    LET A == norm * c.pre * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b] IN
    LET A_2 == A + ((-norm) * c.preS * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b]) / c.pDenU IN
    LET A_3 == A_2 + ((-norm) * c.pre * 2 * c.MW * c.MW * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b]) / c.pDenT - (norm * c.pre * c.MW * (c.s23s[ds2a][ds3a] * c.s312a[ds3b][ds2b] + c.a23a[ds2a][ds3a] * c.s213a[ds2b][ds3b])) / c.pDenT - (norm * c.pre * c.s312a[ds3a][ds2a] * c.s213a[ds2b][ds3b]) / c.pDenT IN
    A_3 + ((-norm) * c.pre * 2 * c.MW * c.MW * c.s23s[ds2a][ds3a] * c.a23a[ds2b][ds3b]) / c.pDenS - (norm * c.pre * c.MW * (c.s23s[ds2a][ds3a] * c.s213a[ds2b][ds3b] + c.a23a[ds2a][ds3a] * c.s312a[ds3b][ds2b])) / c.pDenS - (norm * c.pre * c.s312a[ds3a][ds2a] * c.s213a[ds2b][ds3b]) / c.pDenS)

amp2(c) ==
  LET tot_3 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      LET M == amp(c, j2, j3) IN
      AbsSq(M))) IN
  tot_3 / 3

=============================================================================
