------------------------------ MODULE SMPoints ------------------------------
(***************************************************************************)
(* Parameter points and phase-space points for the processes, determined   *)
(* by a key.  All masses, widths and couplings differ from each other, so  *)
(* that mistaking one for another cannot go unnoticed.                     *)
(***************************************************************************)
EXTENDS SMAll, Lorentz

Between(lo, hi, key) == Num(lo) + (Num(hi) - Num(lo)) * Rnd(key)

ParamRange(n) ==
  CASE n = "echarge" -> <<"0.25", "0.9">>   [] n = "gscharge" -> <<"0.9", "1.4">>  [] n = "gcharge" -> <<"0.9", "1.4">>
    [] n = "sinW" -> <<"0.35", "0.75">>     [] n = "massW" -> <<65, 95>>           [] n = "massh" -> <<105, 150>>
    [] n = "masse" -> <<2, 14>>             [] n = "massmu" -> <<15, 30>>          [] n = "masstau" -> <<10, 40>>
    [] n = "massu" -> <<3, 21>>             [] n = "massd" -> <<22, 44>>           [] n = "masss" -> <<6, 33>>
    [] n = "massc" -> <<11, 38>>            [] n = "massb" -> <<9, 35>>            [] n = "masst" -> <<120, 190>>
    [] n = "massf" -> <<5, 45>>             [] n = "vev" -> <<150, 300>>
    [] n = "widthW" -> <<1, 6>>             [] n = "widthZ" -> <<2, 8>>            [] n = "widthh" -> <<"0.5", 9>>

\* Parameters of class cls as decimal texts, so that code and specification get the same numbers.
ParamText(cls, key) ==
  LET sig == Sig(cls) IN
  [n \in {sig.ctor[k] : k \in DOMAIN sig.ctor} |-> Dec(Between(ParamRange(n)[1], ParamRange(n)[2], <<key, n>>), 9)]
\* Regimes of the fermion masses, which are all similar otherwise: "light", "tiny" (all far below
\* every other mass), "heavy" (above those of the bosons), "equal" (all the same); of the boson
\* masses: "lowh", "highh" (a Higgs boson below and far above the others), "lightW"; of the
\* widths: "narrow" (no widths), "thin", "wide"; and of the couplings: "weak", "minus".
Fermions == {"masse", "massmu", "masstau", "massu", "massd", "masss", "massc", "massb", "masst", "massf"}
Widths == {"widthW", "widthZ", "widthh"}
Couplings == {"echarge", "gscharge", "gcharge"}
Power(lo, hi, key) == LET j == RndInt(key, 3) IN IF j = 1 THEN Num(lo) ELSE IF j = 2 THEN Num(hi) ELSE Sqrt(Num(lo) * Num(hi))
InRegime(how, n, x, key) ==
  IF n \in Fermions
  THEN CASE "light" \in how -> x * Power("0.001", "0.1", <<key, n, "light">>)
         [] "tiny" \in how -> x * Num("0.000001")
         [] "heavy" \in how -> 130 + 5 * x
         [] "equal" \in how -> Between(5, 45, <<key, "equal">>)
         [] OTHER -> x
  ELSE IF n \in Widths THEN (IF "narrow" \in how THEN 0 ELSE IF "wide" \in how THEN x * 5 ELSE IF "thin" \in how THEN x * Num("0.0001") ELSE x)
  ELSE IF n = "massh" THEN (IF "lowh" \in how THEN x * Num("0.3") ELSE IF "highh" \in how THEN x * 5 ELSE x)
  ELSE IF n = "massW" THEN (IF "lightW" \in how THEN x * Num("0.2") ELSE x)
  ELSE IF n \in Couplings THEN (IF "weak" \in how THEN x * Num("0.0000001") ELSE IF "minus" \in how THEN -x ELSE x)
  ELSE x
ParamIn(how, cls, key) ==
  LET p == TLCEval(ParamText(cls, key))
  IN IF how = {} THEN p ELSE TLCEval([n \in DOMAIN p |-> LET x == TLCEval(InRegime(how, n, Num(p[n]), key)) IN IF SameNum(x, p[n]) THEN p[n] ELSE Dec(x, 9)])
Values(q) == [n \in DOMAIN q |-> Num(q[n])]
InOrder(names, q) == [k \in DOMAIN names |-> q[names[k]]]

RandomAxis(key) == Unit3(<<Between(-1, 1, <<key, "x">>), Between(-1, 1, <<key, "y">>), Between(-1, 1, <<key, "z">>)>>)

Threshold(m) == MaxNum(m[1] + m[2], m[3] + m[4])
RandomS(m, key) == Sq(Threshold(m) * Between("1.08", "2.2", <<key, "s">>) + Between(20, 90, <<key, "s0">>))
RandomCos(key) == Between("-0.94", "0.94", <<key, "cos">>)

\* The frame in which particle k, if massive, is at rest.
RestFrameOf(mom, k) ==
  LET v == Scale3(1 / mom[k][1], Space(mom[k]))
      b == BoostAll(mom, v)
      m2 == MinkDot(mom[k], mom[k])
  IN IF Less(m2, 1) THEN mom ELSE [b EXCEPT ![k] = <<Sqrt(m2), 0, 0, 0>>]
AtRest(mom) == LET k == IF Less(MinkDot(mom[2], mom[2]), 1) THEN 1 ELSE 2 IN RestFrameOf(mom, k)

Tilted(mom, key) ==
  LET a == Between(0, "6.283", <<key, "ta">>)
      tilt == Power("0.000000000001", "0.00001", <<key, "tilt">>) * Between(1, 3, <<key, "tl">>)
      pi == Num("3.14159265358979323846264338327950288")
  IN RotateAll(mom, <<Cos(a), Sin(a), 0>>, IF RndInt(<<key, "tb">>, 2) = 1 THEN tilt ELSE pi - tilt)

\* Frames: the plain scattering frame, special orientations of it, and general ones.
FrameOf(kind, mom, key) ==
  CASE kind = 1 -> mom
    [] kind = 2 -> RotateAll(mom, RandomAxis(<<key, "u">>), Between(0, "6.283", <<key, "t">>))
    [] kind = 3 -> BoostAll(mom, Scale3(Between("0.1", "0.7", <<key, "v">>), RandomAxis(<<key, "vd">>)))
    [] kind = 4 -> BoostAll(RotateAll(mom, RandomAxis(<<key, "u">>), Between(0, "6.283", <<key, "t">>)),
                            Scale3(Between("0.1", "0.7", <<key, "v">>), RandomAxis(<<key, "vd">>)))
    [] kind = 5 -> MapAll(mom, LAMBDA p: <<p[1], p[4], p[2], p[3]>>)      \* along the x axis
    [] kind = 6 -> MapAll(mom, LAMBDA p: <<p[1], p[3], p[4], p[2]>>)      \* along the y axis
    [] kind = 7 -> AtRest(mom)
    \* almost along an axis
    [] kind = 8 -> Tilted(mom, key)
    [] kind = 9 -> MapAll(Tilted(mom, key), LAMBDA p: <<p[1], p[4], p[2], p[3]>>)
    \* boosted along the axis, and fast
    [] kind = 10 -> BoostAll(mom, <<0, 0, Between("-0.8", "0.8", <<key, "vz">>)>>)
    [] kind = 11 -> BoostAll(mom, Scale3(Between("0.9", "0.97", <<key, "v">>), RandomAxis(<<key, "vd">>)))
    [] OTHER -> mom
\* The mass shell is checked with an absolute tolerance, which the rounding of squared energies
\* above ten thousand exceeds: no such energies.
InFrame(kind, mom, key) ==
  LET f == TLCEval(FrameOf(kind, mom, key))
  IN IF \E j \in {1, 2, 3, 4} : Less(7000, f[j][1]) THEN mom ELSE f

\* Energies: "soft" (of the order of the masses outside), "close" (just above threshold), "high";
\* angles: "side" (a right angle), "forward", "backward".
SIn(how, m, key) ==
  LET t == Threshold(m) IN
  CASE "soft" \in how /\ Less(0, t) -> Sq(t * Between("1.1", 4, <<key, "s">>))
    [] "close" \in how /\ Less(0, t) -> Sq(t * (1 + Power("0.0001", "0.01", <<key, "s">>)))
    [] "high" \in how -> Sq(t * Between(3, 6, <<key, "s">>) + Between(300, 900, <<key, "s0">>))
    [] OTHER -> RandomS(m, key)
CosIn(how, key) ==
  CASE "side" \in how -> Num(0)
    [] "forward" \in how -> 1 - Power("0.00001", "0.01", <<key, "cos">>)
    [] "backward" \in how -> Power("0.00001", "0.01", <<key, "cos">>) - 1
    [] OTHER -> RandomCos(key)
PointIn(how, m, key) == TwoToTwo(m, SIn(how, m, key), CosIn(how, key))
Point(m, key) == PointIn({}, m, key)

\* Decimal texts of momenta: 1e-30 relative, far below the rounding of the code's numbers.
MomText(mom) ==
  LET d(x) == Dec(x, 30) IN
  <<d(mom[1][1]), d(mom[1][2]), d(mom[1][3]), d(mom[1][4]), d(mom[2][1]), d(mom[2][2]), d(mom[2][3]), d(mom[2][4]),
    d(mom[3][1]), d(mom[3][2]), d(mom[3][3]), d(mom[3][4]), d(mom[4][1]), d(mom[4][2]), d(mom[4][3]), d(mom[4][4])>>

\* All spin arguments of an amplitude method.
RECURSIVE Product(_)
Product(args) ==
  IF Len(args) = 0 THEN <<<<>>>>
  ELSE LET rest == Product(Tail(args))
           RECURSIVE glue(_)
           glue(k) == IF IntLess(Len(args[1]), k) THEN <<>> ELSE [j \in DOMAIN rest |-> <<args[1][k]>> \o rest[j]] \o glue(k + 1)
       IN glue(1)
=============================================================================
