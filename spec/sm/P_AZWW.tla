------------------------------- MODULE P_AZWW -------------------------------
(* Tree-level amplitude of the process class AZWW: see Amplitude.tla for how to read it. *)
EXTENDS Amplitude

\* What the class is made of (see SMAll.tla).
Sig == [ctor |-> <<"echarge", "massW", "sinW", "widthW">>,
        setm |-> <<"massW">>,
        setv |-> FALSE, at |-> FALSE,
        amps |-> <<[f |-> "amp", args |-> <<<<-2, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>, <<-2, 0, 2>>>>]>>,
        squares |-> <<"amp2", "amp2_Aplus">>]

\* Couplings and masses from the parameters q of the process.
Model(q) ==
  LET e == q.echarge
      MW == q.massW
      SW == q.sinW
      WW == q.widthW
      sqrt2 == Sqrt(2)
      CW == Sqrt(1 - q.sinW * q.sinW)
      MZ == MW / CW
      pre == (2 * e * e) / (CW * SW)
  IN [e |-> e,
      MW |-> MW,
      SW |-> SW,
      WW |-> WW,
      sqrt2 |-> sqrt2,
      CW |-> CW,
      MZ |-> MZ,
      pre |-> pre]

\* Masses of the four external particles.
Legs(q) == LET k == Model(q) IN <<0, k.MZ, k.MW, k.MW>>

\* Everything the amplitudes depend on: couplings, spinor brackets and propagator denominators.
Context(q, mom) ==
  LET k == Model(q)
      p == Externals(Legs(q), mom)
      pDenT == Den(k.MW, k.WW, Comb(mom, <<1, 0, -1, 0>>))
      pDenU == Den(k.MW, k.WW, Comb(mom, <<1, 0, 0, -1>>))
  IN k @@ [s12s |-> Bracket("square", <<1, 2>>, p),
      a12a |-> Bracket("angle", <<1, 2>>, p),
      s23s |-> Bracket("square", <<2, 3>>, p),
      a23a |-> Bracket("angle", <<2, 3>>, p),
      s24s |-> Bracket("square", <<2, 4>>, p),
      a24a |-> Bracket("angle", <<2, 4>>, p),
      s34s |-> Bracket("square", <<3, 4>>, p),
      a34a |-> Bracket("angle", <<3, 4>>, p),
      s14s |-> Bracket("square", <<1, 4>>, p),
      a14a |-> Bracket("angle", <<1, 4>>, p),
      s13s |-> Bracket("square", <<1, 3>>, p),
      a13a |-> Bracket("angle", <<1, 3>>, p),
      pDenT |-> pDenT,
      pDenU |-> pDenU]

amp(c, ds1, ds2, ds3, ds4) ==
  LET n == NumSpinLoops(<<ds2, ds3, ds4>>) IN
  LET norm == SpinNorm(<<ds2, ds3, ds4>>) IN
  Sum(UpTo(n), LAMBDA i:
    LET sp == SpinorSpins(<<ds2, ds3, ds4>>, i)
        ds2a == sp[1].a
        ds2b == sp[1].b
        ds3a == sp[2].a
        ds3b == sp[2].b
        ds4a == sp[3].a
        ds4b == sp[3].b IN
    LET A_4 == IF Plus(ds1)
        THEN ((norm * c.pre * ((c.CW * c.CW * c.s12s[0][ds2a] * c.s12s[0][ds2b] * c.a34a[ds3a][ds4a] * c.a34a[ds3b][ds4b] + c.CW * c.CW * c.s13s[0][ds3a] * c.s13s[0][ds3b] * c.a24a[ds2a][ds4a] * c.a24a[ds2b][ds4b] + c.CW * c.CW * c.s14s[0][ds4a] * c.s14s[0][ds4b] * c.a23a[ds2a][ds3a] * c.a23a[ds2b][ds3b] + (c.CW * c.CW - c.SW * c.SW) * c.s13s[0][ds3a] * c.s14s[0][ds4a] * c.a23a[ds2a][ds3b] * c.a24a[ds2b][ds4b]) - c.CW * c.s12s[0][ds2a] * c.s13s[0][ds3a] * c.a24a[ds2b][ds4a] * c.a34a[ds3b][ds4b] + c.CW * c.s12s[0][ds2a] * c.s14s[0][ds4a] * c.a23a[ds2b][ds3a] * c.a34a[ds3b][ds4b])) / c.pDenT) / c.pDenU
        ELSE LET A_3 == IF Minus(ds1)
            THEN ((norm * c.pre * ((c.CW * c.CW * c.a12a[0][ds2a] * c.a12a[0][ds2b] * c.s34s[ds3a][ds4a] * c.s34s[ds3b][ds4b] + c.CW * c.CW * c.a13a[0][ds3a] * c.a13a[0][ds3b] * c.s24s[ds2a][ds4a] * c.s24s[ds2b][ds4b] + c.CW * c.CW * c.a14a[0][ds4a] * c.a14a[0][ds4b] * c.s23s[ds2a][ds3a] * c.s23s[ds2b][ds3b] + (c.CW * c.CW - c.SW * c.SW) * c.a13a[0][ds3a] * c.a14a[0][ds4a] * c.s23s[ds2a][ds3b] * c.s24s[ds2b][ds4b]) - c.CW * c.a12a[0][ds2a] * c.a13a[0][ds3a] * c.s24s[ds2b][ds4a] * c.s34s[ds3b][ds4b] + c.CW * c.a12a[0][ds2a] * c.a14a[0][ds4a] * c.s23s[ds2b][ds3a] * c.s34s[ds3b][ds4b])) / c.pDenT) / c.pDenU
            ELSE 0 IN
        A_3 IN
    A_4)

amp2(c) ==
  LET tot_5 == Sum(<<-2, 2>>, LAMBDA j1:
    Sum(<<-2, 0, 2>>, LAMBDA j2:
      Sum(<<-2, 0, 2>>, LAMBDA j3:
        Sum(<<-2, 0, 2>>, LAMBDA j4:
          LET M == amp(c, j1, j2, j3, j4) IN
          AbsSq(M))))) IN
  tot_5 / 6

amp2_Aplus(c) ==
  LET tot_4 == Sum(<<-2, 0, 2>>, LAMBDA j2:
    Sum(<<-2, 0, 2>>, LAMBDA j3:
      Sum(<<-2, 0, 2>>, LAMBDA j4:
        LET M == amp(c, 2, j2, j3, j4) IN
        AbsSq(M)))) IN
  tot_4 / 3

=============================================================================
