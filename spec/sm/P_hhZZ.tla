------------------------------- MODULE P_hhZZ -------------------------------
(* Tree-level amplitude of the process class hhZZ: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massh", "widthh", "massW", "sinW", "widthZ">>,
        setm |-> <<"massh", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      mh == q.massh
      wh == q.widthh
      MW == q.massW
      SW == q.sinW
      WZ == q.widthZ
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      pre == (e * e) / (2 * MW * MW * SW * SW)
      preS == 3 * pre * mh * mh
  IN [e |-> e,
      mh |-> mh,
      wh |-> wh,
      MW |-> MW,
      SW |-> SW,
      WZ |-> WZ,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      MZ |-> MZ,
      pre |-> pre,
      preS |-> preS]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mh, k.mh, k.MZ, k.MZ>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mh, k.wh, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.MZ, k.WZ, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      s413a |-> Bracket("square", <<4, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A == (-norm) * c.pre * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b] IN
    LET A_2 == A + (norm * c.preS * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b]) / c.pDenS IN
    LET A_3 == A_2 + ((norm * c.pre * 2 * c.MZ * c.MZ * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b]) / c.pDenT - (norm * c.pre * c.MZ * (c.s34s[ds3a][ds4a] * c.s314a[ds3b][ds4b] + c.a34a[ds3a][ds4a] * c.s413a[ds4b][ds3b])) / c.pDenT + (norm * c.pre * c.s314a[ds3a][ds4a] * c.s413a[ds4b][ds3b]) / c.pDenT) IN
    A_3 + ((norm * c.pre * 2 * c.MZ * c.MZ * c.s34s[ds3a][ds4a] * c.a34a[ds3b][ds4b]) / c.pDenU + (norm * c.pre * c.MZ * (c.s34s[ds3a][ds4a] * c.s413a[ds4b][ds3b] + c.a34a[ds3a][ds4a] * c.s314a[ds3b][ds4b])) / c.pDenU + (norm * c.pre * c.s314a[ds3a][ds4a] * c.s413a[ds4b][ds3b]) / c.pDenU))

amp2(c) ==
  LET tot_3 == Sum(<<-2, 0, 2>>, LAMBDA j3:
    Sum(<<-2, 0, 2>>, LAMBDA j4:
      LET M == amp(c, j3, j4) IN
      AbsSq(M))) IN
  tot_3 / 2

=============================================================================
