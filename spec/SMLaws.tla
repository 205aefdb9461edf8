------------------------------- MODULE SMLaws -------------------------------
(***************************************************************************)
(* Laws every correct process obeys, stated without its amplitude formula: *)
(*   sum       a square is the spin sum of the amplitudes, with the colour *)
(*             weights, averages and symmetry factor of its particles;     *)
(*   frame     a square depends on the momenta through s and t only;       *)
(*   exchange  exchanging identical particles, or conjugate ones when CP   *)
(*             allows, changes nothing;                                    *)
(*   partner   processes that differ in charges, colours or the direction  *)
(*             of time only have squares in a fixed proportion;            *)
(*   parity    where parity is conserved, reversing all spins in a plane   *)
(*             configuration does not change an amplitude's modulus.       *)
(* The last two are laws of processes without widths: the simplified forms *)
(* of amplitudes use identities a width in a propagator does not respect.  *)
(***************************************************************************)
EXTENDS SMPoints, SMParticles

\* --------------------------------------------------------------- invariants
Add4(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3], p[4] + q[4]>>
Sub4(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3], p[4] - q[4]>>
Invariants(mom) ==
  LET st == Add4(mom[1], mom[2])
      tt == Sub4(mom[1], mom[3])
      uu == Sub4(mom[1], mom[4])
  IN [s |-> MinkDot(st, st), t |-> MinkDot(tt, tt), u |-> MinkDot(uu, uu)]

\* --------------------------------------------------------------------- sums
\* The polarisations a square is restricted to, for its initial massless bosons in order.
Fixed(f) ==
  CASE f \in {"amp2_Aplus", "amp2_gplus"} -> <<2>>
    [] f \in {"amp2_Aminus", "amp2_gminus"} -> <<-2>>
    [] f \in {"amp2_Aplus_Aplus", "amp2_gplus_gplus", "amp2_gplus_Aplus"} -> <<2, 2>>
    [] f \in {"amp2_Aplus_Aminus", "amp2_gplus_gminus", "amp2_gplus_Aminus"} -> <<2, -2>>
    [] f = "amp2_gminus_gplus" -> <<-2, 2>>
    [] f = "amp2_gminus_gminus" -> <<-2, -2>>
    [] f \in {"amp2", "amp2_Feynman"} -> <<>>
Massless(cls, i) == Particles[cls][i][1] \in {"A", "g"}
\* The polarisation the square f fixes for leg i, or 0.
FixedAt(cls, f, i) ==
  LET fx == Fixed(f)
      pos == IF i = 1 THEN 1 ELSE IF i = 2 THEN (IF Massless(cls, 1) THEN 2 ELSE 1) ELSE 3
  IN IF i \in {1, 2} /\ Massless(cls, i) /\ ~IntLess(Len(fx), pos) THEN fx[pos] ELSE 0
FixedLegs(cls, f) == {i \in {1, 2} : FixedAt(cls, f, i) # 0}
SumLabels(cls, f) ==
  LET ps == Particles[cls]
      lab(i) == IF FixedAt(cls, f, i) # 0 THEN <<FixedAt(cls, f, i)>> ELSE Labels(ps[i])
      has(i) == IF Len(Labels(ps[i])) = 0 THEN <<>> ELSE <<lab(i)>>
  IN TLCEval(Product(has(1) \o has(2) \o has(3) \o has(4)))

RECURSIVE SumOver(_, _, _)
SumOver(g(_), ds, k) == IF IntLess(Len(ds), k) THEN 0 ELSE g(ds[k]) + SumOver(g, ds, k + 1)

Weight(cls) ==
  LET q == HowMany(cls, Quarks)
      g == HowMany(cls, {"g"})
  IN CASE q = 0 /\ g = 0 -> 1 [] q = 2 /\ g = 0 -> 3 [] q = 2 /\ g = 1 -> 4 [] q = 4 -> 9

Inv2(x, y) == 1 / Sq(x * y)
\* Gluon and quark channels of two gluons and two quarks of mass m.
TwoGluon(i, m, a) ==
  LET gg == a[1]
      x == i[a[2]] - m * m
      y == i[a[3]] - m * m
  IN 6 * Inv2(i[gg], x) + 6 * Inv2(i[gg], y) - (2 * Inv2(x, y)) / 3
GluonChannels(cls) == CASE cls \in {"ggdd", "gguu"} -> <<"s", "t", "u">> [] cls = "dggd" -> <<"u", "s", "t">> [] cls = "gugu" -> <<"t", "s", "u">>

\* The colour-weighted square of the amplitudes with spins d: v(f, d) are the amplitudes.
Colour(cls, i, m, v(_, _), d) ==
  LET fs == {Sig(cls).amps[k].f : k \in DOMAIN Sig(cls).amps}
      sq(f) == AbsSq(v(f, d))
      x(f, g) == 2 * Re(v(f, d) * Conj(v(g, d)))
      two(a, b) == LET ga == "amp_gluon_" \o a
                       gb == "amp_gluon_" \o b
                       ra == "amp_rest_" \o a
                       rb == "amp_rest_" \o b
                   IN 9 * sq(ra) + 9 * sq(rb) + 2 * sq(ga) + 2 * sq(gb) + 3 * x(ra, rb) - (2 * x(ga, gb)) / 3 + 4 * x(ga, rb) + 4 * x(gb, ra)
  IN CASE cls = "gggg" -> sq("amp") * 36 * (Inv2(i.s, i.t) + Inv2(i.s, i.u) + Inv2(i.t, i.u))
       [] fs = {"amp"} -> Weight(cls) * sq("amp")
       [] fs = {"amp_Num"} -> sq("amp_Num") * TwoGluon(i, m, GluonChannels(cls))
       [] fs = {"amp_gluon", "amp_rest"} -> 9 * sq("amp_rest") + 2 * sq("amp_gluon")
       [] fs = {"amp_gluon", "amp_rest", "amp_W"} -> 9 * sq("amp_rest") + 2 * sq("amp_gluon") + 9 * sq("amp_W") + 3 * x("amp_rest", "amp_W") + 4 * x("amp_gluon", "amp_W")
       [] "amp_gluon_S" \in fs -> two("S", "T")
       [] "amp_gluon_U" \in fs -> two("T", "U")

\* The closed form for two gluons to two quarks is the one for massless quarks.
HasSum(cls, f) == ~(f = "amp2_Feynman" /\ cls \in {"ggdd", "gguu"})
SumOf(cls, f, i, m, v(_, _)) == SumOver(LAMBDA d: Colour(cls, i, m, v, d), SumLabels(cls, f), 1) / Average(cls, FixedLegs(cls, f))
QuarkMass(cls, q) == LET legs == LegsOf(cls, q)
                         k == CHOOSE j \in {1, 2, 3, 4} : Particles[cls][j][1] \in Quarks
                     IN IF HowMany(cls, Quarks) = 0 THEN 0 ELSE legs[k]

Narrow(q) == \A n \in DOMAIN q \cap {"widthW", "widthZ", "widthh"} : SameNum(q[n], 0)

\* ------------------------------------------------------------------ partners
\* Families of processes: the spin and colour sum without couplings depends on the masses and
\* invariants only.  order: legs in the order of the family; charge: what couples per square.
Vev(q) == IF "vev" \in DOMAIN q THEN Num(q.vev) ELSE (2 * q.massW * q.sinW) / q.echarge
EQ(q, n) == Sq((q.echarge * n) / 3)       \* squared charge, n thirds of e
GS(q) == IF "gscharge" \in DOMAIN q THEN Sq(q.gscharge) ELSE Sq(q.gcharge)
Same4 == <<1, 2, 3, 4>>
Fam(name, order, coupling) == [name |-> name, order |-> order, coupling |-> coupling]
Families == [
  AAff |-> <<"AAee", "AAdd", "AAuu", "gAdd", "gAuu", "eeAA", "ddAA", "uuAA">>, fAAf |-> <<"eAAe", "dAAd", "uAAu", "dAgd", "guAu">>,
  ffAh |-> <<"eeAh", "ddAh", "uuAh">>, fAfh |-> <<"eAeh", "dAdh", "uAuh", "dgdh", "uguh">>, hAff |-> <<"hgdd", "hguu">>,
  ffhh |-> <<"eehh", "ddhh", "uuhh">>, fhfh |-> <<"eheh", "dhdh", "uhuh">>, ggqq |-> <<"ggdd", "gguu">>, qggq |-> <<"dggd", "gugu">>,
  AZee |-> <<"AZee", "eeAZ">>, AWud |-> <<"AWud", "udAW">>]
FamilyNames == <<"AAff", "fAAf", "ffAh", "fAfh", "hAff", "ffhh", "fhfh", "ggqq", "qggq", "AZee", "AWud">>
InFamily(cls) == \E n \in DOMAIN Families : \E k \in DOMAIN Families[n] : Families[n][k] = cls
Family(cls, q) ==
  CASE cls = "AAee" -> Fam("AAff", Same4, Sq(EQ(q, 3)))
    [] cls = "AAdd" -> Fam("AAff", Same4, Sq(EQ(q, 1)))
    [] cls = "AAuu" -> Fam("AAff", Same4, Sq(EQ(q, 2)))
    [] cls = "gAdd" -> Fam("AAff", Same4, EQ(q, 1) * GS(q))
    [] cls = "gAuu" -> Fam("AAff", Same4, EQ(q, 2) * GS(q))
    [] cls = "eeAA" -> Fam("AAff", <<3, 4, 1, 2>>, Sq(EQ(q, 3)))
    [] cls = "ddAA" -> Fam("AAff", <<3, 4, 1, 2>>, Sq(EQ(q, 1)))
    [] cls = "uuAA" -> Fam("AAff", <<3, 4, 1, 2>>, Sq(EQ(q, 2)))
    [] cls = "eAAe" -> Fam("fAAf", Same4, Sq(EQ(q, 3)))
    [] cls = "dAAd" -> Fam("fAAf", Same4, Sq(EQ(q, 1)))
    [] cls = "uAAu" -> Fam("fAAf", Same4, Sq(EQ(q, 2)))
    [] cls = "dAgd" -> Fam("fAAf", Same4, EQ(q, 1) * GS(q))
    [] cls = "guAu" -> Fam("fAAf", <<2, 1, 3, 4>>, EQ(q, 2) * GS(q))
    [] cls = "eeAh" -> Fam("ffAh", Same4, EQ(q, 3) / Sq(Vev(q)))
    [] cls = "ddAh" -> Fam("ffAh", Same4, EQ(q, 1) / Sq(Vev(q)))
    [] cls = "uuAh" -> Fam("ffAh", Same4, EQ(q, 2) / Sq(Vev(q)))
    [] cls = "eAeh" -> Fam("fAfh", Same4, EQ(q, 3) / Sq(Vev(q)))
    [] cls = "dAdh" -> Fam("fAfh", Same4, EQ(q, 1) / Sq(Vev(q)))
    [] cls = "uAuh" -> Fam("fAfh", Same4, EQ(q, 2) / Sq(Vev(q)))
    [] cls = "dgdh" -> Fam("fAfh", Same4, GS(q) / Sq(Vev(q)))
    [] cls = "uguh" -> Fam("fAfh", Same4, GS(q) / Sq(Vev(q)))
    [] cls \in {"hgdd", "hguu"} -> Fam("hAff", Same4, GS(q) / Sq(Vev(q)))
    [] cls \in {"eehh", "ddhh", "uuhh"} -> Fam("ffhh", Same4, Inv2(Vev(q), Vev(q)))
    [] cls \in {"eheh", "dhdh", "uhuh"} -> Fam("fhfh", Same4, Inv2(Vev(q), Vev(q)))
    [] cls \in {"ggdd", "gguu"} -> Fam("ggqq", Same4, Sq(GS(q)))
    [] cls = "dggd" -> Fam("qggq", Same4, Sq(GS(q)))
    [] cls = "gugu" -> Fam("qggq", <<2, 1, 3, 4>>, Sq(GS(q)))
    [] cls = "AZee" -> Fam("AZee", Same4, 1)
    [] cls = "eeAZ" -> Fam("AZee", <<3, 4, 1, 2>>, 1)
    [] cls = "AWud" -> Fam("AWud", Same4, 1)
    [] cls = "udAW" -> Fam("AWud", <<3, 4, 1, 2>>, 1)      \* and antiparticles throughout
    [] OTHER -> Fam(cls, Same4, 1)
PartnerName(cls, q) == IF InFamily(cls) /\ ~Narrow(q) THEN cls ELSE Family(cls, q).name
\* Couplings scaled away in the families; everything else must agree between partners.
ScaledAway(name) == IF name \in {"AZee", "AWud"} THEN {} ELSE {"echarge", "gscharge", "gcharge", "vev", "massW", "sinW"}
Generic(n) == IF n \in {"masse", "massd", "massu"} THEN "massf" ELSE n
\* Colours: the stripped sum has the colour trace of the process divided out.
StrippedWeight(cls) ==
  LET q == HowMany(cls, Quarks)
      g == HowMany(cls, {"g"})
  IN IF IntLess(1, g) THEN 1 ELSE Weight(cls)
\* The value the law compares, and what it depends on.
Stripped(cls, q, value) == ((value * Average(cls, {})) / StrippedWeight(cls)) / Family(cls, q).coupling
KeyParams(cls, q) ==
  IF ~InFamily(cls) THEN q
  ELSE LET keep == DOMAIN q \ ScaledAway(Family(cls, q).name)
           names == IF Family(cls, q).name \in {"AWud"} THEN keep ELSE {Generic(n) : n \in keep}
       IN [g \in names |-> q[IF g \in keep THEN g ELSE CHOOSE n \in keep : Generic(n) = g]]
=============================================================================
