------------------------------- MODULE P_ddnn -------------------------------
(* Tree-level amplitude of the process class ddnn: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massd", "massW", "sinW", "widthZ">>,
        setm |-> <<"massd", "massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-1, 1>>, <<-1, 1>>>>]>>,
        squares |-> <<"amp2">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      md == q.massd
      MW == q.massW
      SW == q.sinW
      CW == Sqrt(1 - q.sinW * q.sinW)
      WZ == q.widthZ
      MZ == MW / CW
      gLd == -1 + (2 / 3) * SW * SW
      gRd == (2 / 3) * SW * SW
      gLn == 1
      gRn == 0
      preZ == (e * e) / (4 * CW * CW * SW * SW)
  IN [e |-> e,
      md |-> md,
      MW |-> MW,
      SW |-> SW,
      CW |-> CW,
      WZ |-> WZ,
      MZ |-> MZ,
      gLd |-> gLd,
      gRd |-> gRd,
      gLn |-> gLn,
      gRn |-> gRn,
      preZ |-> preZ]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<k.md, k.md, 0, 0>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenSZ == Den(k.MZ, k.WZ, Comb(mom, <<1, 1, 0, 0>>))
  IN k @@ [s23s |-> Bracket("square", <<2, 3>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      pDenSZ |-> pDenSZ]

amp(c, ds1, ds2) ==
  (2 * c.preZ * (c.gLd * c.gLn * c.s23s[ds2][0] * c.a14a[ds1][0] + c.gLn * c.gRd * c.s13s[ds1][0] * c.a24a[ds2][0])) / c.pDenSZ

amp2(c) ==
  LET tot_3 == Sum(<<-1, 1>>, LAMBDA j1:
    Sum(<<-1, 1>>, LAMBDA j2:
      LET M == amp(c, j1, j2) IN
      3 * AbsSq(M))) IN
  tot_3 / 36

=============================================================================
