------------------------------- MODULE P_udZW -------------------------------
(* Tree-level amplitude of the process class udZW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massu", "massd", "massW", "sinW", "widthW">>,
        setm |-> <<"massu", "massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      Qu == 2 / 3
      Qd == (-1) / 3
      mu == q.massu
      md == q.massd
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      CW == Sqrt(1 - SW * SW)
      MZ == MW / CW
      preud == (e * e) / (Sqrt(2) * MW * MW * SW * SW)
      preW == preud / (MZ * MZ)
      gLu == (-2) * Qu * SW * SW + 1
      gRu == (-2) * Qu * SW * SW
      gLd == (-2) * Qd * SW * SW - 1
      gRd == (-2) * Qd * SW * SW
  IN [e |-> e,
      Qu |-> Qu,
      Qd |-> Qd,
      mu |-> mu,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      CW |-> CW,
      MZ |-> MZ,
      preud |-> preud,
      preW |-> preW,
      gLu |-> gLu,
      gRu |-> gRu,
      gLd |-> gLd,
      gRd |-> gRd]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.mu, k.md, k.MZ, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenS == Den(k.MW, k.WW, Comb(mom, <<1, 1, 0, 0>>))
      pDenT == Den(k.mu, 0, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.md, 0, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [a12a |-> Bracket("angle", <<1, 2>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s12s |-> Bracket("square", <<1, 2>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      s132a |-> Bracket("square", <<1, 3, 2>>, p),
      s314a |-> Bracket("square", <<3, 1, 4>>, p),
      s413a |-> Bracket("square", <<4, 1, 3>>, p),
      pDenS |-> pDenS,
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds3, ds4>>, i)
        ds3a == sp[1].a
        ds3b == sp[1].b
        ds4a == sp[2].a
        ds4b == sp[2].b IN
    LET A == (norm * c.preW * (2 * (c.MW * c.a34a[ds3a][ds4b] + c.MZ * c.s34s[ds3a][ds4b]) * c.MW * c.MW * c.a24a[ds2][ds4a] * c.s13s[ds1][ds3b] + 2 * (c.MZ * c.a34a[ds3a][ds4b] + c.MW * c.s34s[ds3a][ds4b]) * c.MW * c.MW * c.a23a[ds2][ds3b] * c.s14s[ds1][ds4a] + c.a34a[ds3a][ds4a] * c.s34s[ds3b][ds4b] * ((c.MZ * c.MZ - 2 * c.MW * c.MW) * c.mu * c.a12a[ds1][ds2] + (2 * c.MW * c.MW - c.MZ * c.MZ) * c.md * c.s12s[ds1][ds2] + 2 * c.MW * c.MW * c.s132a[ds1][ds2]))) / c.pDenS IN
    LET A_2 == A + ((-norm) * c.preud * c.a24a[ds2][ds4a] * (c.gRu * c.mu * c.a13a[ds1][ds3b] * c.s34s[ds3a][ds4b] - c.gLu * c.s13s[ds1][ds3a] * (c.MZ * c.s34s[ds3b][ds4b] - c.s413a[ds4b][ds3b]))) / c.pDenT IN
    A_2 + (norm * c.preud * c.s14s[ds1][ds4a] * (c.gRd * c.md * c.a34a[ds3a][ds4b] * c.s23s[ds2][ds3b] - c.gLd * c.a23a[ds2][ds3a] * (c.MW * c.s34s[ds3b][ds4b] + c.s314a[ds3b][ds4b]))) / c.pDenU)

amp2(c) ==
  LET tot_5 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          3 * AbsSq(M))))) IN
  tot_5 / 36

=============================================================================
