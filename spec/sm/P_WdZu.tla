------------------------------- MODULE P_WdZu -------------------------------
(* Tree-level amplitude of the process class WdZu: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massW", "sinW", "widthW">>,
        setm |-> <<"massu", "massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 0, 2>>, <<-1, 1>>, <<-2, 0, 2>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qu == 2 / 3
      Qd == (-1) / 3
      mu == q.massu
      md == q.massd
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      CW == Sqrt(1 - SW * SW)
      MZ == MW / CW
      preud == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      preW == preud / (MZ * MZ)
      gLu == (-2) * Qu * SW * SW + 1
      gRu == (-2) * Qu * SW * SW
      gLd == (-2) * Qd * SW * SW - 1
      gRd == (-2) * Qd * SW * SW
  IN [e |-> e,
      Qu |-> Qu,
      Qd |-> Qd,
      mu |-> mu,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      CW |-> CW,
      MZ |-> MZ,
      preud |-> preud,
      preW |-> preW,
      gLu |-> gLu,
      gRu |-> gRu,
      gLd |-> gLd,
      gRd |-> gRd]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.MW, k.md, k.MZ, k.mu>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.mu, 0, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.md, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a42a |-> Bracket("angle", <<4, 2>>, p),
      a43a |-> Bracket("angle", <<4, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      a21a |-> Bracket("angle", <<2, 1>>, p),
      a31a |-> Bracket("angle", <<3, 1>>, p),
      s42s |-> Bracket("square", <<4, 2>>, p),
      s43s |-> Bracket("square", <<4, 3>>, p),
      s41s |-> Bracket("square", <<4, 1>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s31s |-> Bracket("square", <<3, 1>>, p),
      s432a |-> Bracket("square", <<4, 3, 2>>, p),
      s341a |-> Bracket("square", <<3, 4, 1>>, p),
      s143a |-> Bracket("square", <<1, 4, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds1>>) IN
  LET norm == SpinNorm(<<ds3, ds1>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds1>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds1a == sp[2].a
        ds1b == sp[2].b IN
    LET A == ((-norm) * c.preW * (2 * (c.MZ * c.a31a[ds3a][ds1b] - c.MW * c.s31s[ds3a][ds1b]) * c.MW * c.MW * c.a23a[ds2][ds3b] * c.s41s[ds4][ds1a] + 2 * ((-c.MW) * c.a31a[ds3a][ds1b] + c.MZ * c.s31s[ds3a][ds1b]) * c.MW * c.MW * c.a21a[ds2][ds1a] * c.s43s[ds4][ds3b] + c.a31a[ds3a][ds1a] * c.s31s[ds3b][ds1b] * ((2 * c.MW * c.MW - c.MZ * c.MZ) * (c.mu * c.a42a[ds4][ds2] + c.md * c.s42s[ds4][ds2]) + 2 * c.MW * c.MW * c.s432a[ds4][ds2]))) / c.pDenT IN
    LET A_2 == A + ((-norm) * c.preud * c.a21a[ds2][ds1a] * (c.gRu * c.mu * c.a43a[ds4][ds3b] * c.s31s[ds3a][ds1b] + c.gLu * c.s43s[ds4][ds3a] * (c.MZ * c.s31s[ds3b][ds1b] + c.s143a[ds1b][ds3b]))) / c.pDenS IN
    A_2 + ((-norm) * c.preud * c.s41s[ds4][ds1a] * (c.gRd * c.md * c.a31a[ds3a][ds1b] * c.s23s[ds2][ds3b] + c.gLd * c.a23a[ds2][ds3a] * (c.MW * c.s31s[ds3b][ds1b] + c.s341a[ds3b][ds1b]))) / c.pDenU)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 0, 2>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-1, 1>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 18

=============================================================================
