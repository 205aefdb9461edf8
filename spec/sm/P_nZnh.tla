------------------------------- MODULE P_nZnh -------------------------------
(* Tree-level amplitude of the process class nZnh: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      MZ == MW / CW
      preZ == (sqrt2 * 2 * e * e) / (4 * CW * CW * SW * SW)
  IN [e |-> e,
      mh |-> mh,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      MZ |-> MZ,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MZ, 0, k.mh>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      pDenT |-> pDenT]

amp(c, ds2) ==
  LET n == NumSpinLoops(<<ds2>>) IN
  LET norm == SpinNorm(<<ds2>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b IN
    ((-norm) * c.preZ * c.s23s[ds2a][0] * c.a12a[0][ds2b]) / c.pDenT)

amp2(c) ==
  LET tot_2 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    LET M == amp(c, j2) IN
    AbsSq(M)) IN
  tot_2 / 3

=============================================================================
