------------------------------ MODULE Harness -------------------------------
(***************************************************************************)
(* The 2 -> 2 comparison of a squared amplitude with twenty reference      *)
(* values: which momenta the process is given, and how mismatches count.   *)
(***************************************************************************)
EXTENDS Lorentz

Variants == {"plain", "rot", "boost", "both", "score"}
PerAngle(var) == IF var \in {"plain", "score"} THEN 1 ELSE 10
Calls(var) == 20 * PerAngle(var)
\* cos(theta) of the k-th call, k from 0
CosOf(var, k) == "0.95" - "0.1" * IntDiv(k, PerAngle(var))

EnergyIn(m, pin) == Sqrt(pin * pin + m * m)
Total(m, pin) == EnergyIn(m[1], pin) + EnergyIn(m[2], pin)
PoutOf(m, pin) == MomentumOf(Sq(Total(m, pin)), m[3], m[4])
CentreOfMass(m, pin, c) ==
  LET pout == PoutOf(m, pin)
      sn == Sqrt(1 - c * c)
  IN <<<<EnergyIn(m[1], pin), 0, 0, pin>>, <<EnergyIn(m[2], pin), 0, 0, -pin>>,
       <<EnergyIn(m[3], pout), pout * sn, 0, pout * c>>, <<EnergyIn(m[4], pout), -(pout * sn), 0, -(pout * c)>>>>

Mink(p, q) == p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4]
Sum4(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3], p[4] + q[4]>>
Split(x) == <<<<x[1], x[2], x[3], x[4]>>, <<x[5], x[6], x[7], x[8]>>, <<x[9], x[10], x[11], x[12]>>, <<x[13], x[14], x[15], x[16]>>>>
Numbers(x) == \A i \in DOMAIN x : IsNum(x[i])

Close4(p, q, scale, tol) == \A i \in {1, 2, 3, 4} : Close(p[i], q[i], scale, tol)
\* Two sets of momenta are images of each other under a Lorentz transformation that keeps
\* parity and the direction of time: all products agree, and so does the oriented volume.
Pairs == {<<a, b>> \in {1, 2, 3, 4} \X {1, 2, 3, 4} : ~IntLess(b, a)}
SameProducts(ps, qs, tol) ==
  \A ab \in Pairs : LET a == ab[1] b == ab[2] IN
    Close(Mink(ps[a], ps[b]), Mink(qs[a], qs[b]), ps[a][1] * ps[b][1] + qs[a][1] * qs[b][1], tol)
Det3(a, b, c) == Dot3(a, Cross(b, c))
Volume(ps) ==
  LET v(i) == Space(ps[i]) IN
  ps[1][1] * Det3(v(2), v(3), v(4)) - ps[2][1] * Det3(v(1), v(3), v(4)) + ps[3][1] * Det3(v(1), v(2), v(4)) - ps[4][1] * Det3(v(1), v(2), v(3))
SizeOf(ps) == ps[1][1] * ps[2][1] * ps[3][1] * ps[4][1]
SameVolume(ps, qs, tol) == Close(Volume(ps), Volume(qs), SizeOf(ps) + SizeOf(qs), tol)
SameEnergies(ps, qs, tol) == \A i \in {1, 2, 3, 4} : Close(ps[i][1], qs[i][1], ps[i][1], tol)

\* ------------------------------------------------------------ counting
RelTol(var) == IF var \in {"boost", "both"} THEN "1e-8" ELSE "1e-9"
AbsTol(var) == IF var = "score" THEN "1e-20" ELSE "1e-15"
Rel(a, d) == Abs(a - d) / Abs(a + d)
\* A value that is not a number never matches its reference.
Mismatch(var, a, d) == ~IsNum(a) \/ (Less(AbsTol(var), Abs(a - d)) /\ (SameNum(a + d, 0) \/ Less(RelTol(var), Rel(a, d))))
=============================================================================
