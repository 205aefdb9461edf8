----------------------------- MODULE TraceCore ------------------------------
(***************************************************************************)
(* Traces of propagators, matrix and vector registers, spin combinatorics, *)
(* rotations and boosts, the comparison harness, random generators and     *)
(* texts for Mathematica.                                                  *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets

A == INSTANCE Algebra
H == INSTANCE Harness
S == INSTANCE SpinSum
T == INSTANCE MText
L == INSTANCE PlainText

VARIABLES prop,    \* propagators: the mass and width last given
          mats, vecs   \* registers: the value last observed

Slots == {0, 1, 2, 3, 4}
None == [m |-> 0, w |-> 0]
ZeroM == A!M2(Cx(0, 0), Cx(0, 0), Cx(0, 0), Cx(0, 0))
ZeroV == <<Cx(0, 0), Cx(0, 0)>>
Keep == UNCHANGED <<prop, mats, vecs>>
Nums(x) == [i \in DOMAIN x |-> Num(x[i])]

\* ------------------------------------------------------------ propagators
\* p^2 - m^2 - i m w
Denominator(q, p) == Cx(p[1] * p[1] - p[2] * p[2] - p[3] * p[3] - p[4] * p[4] - q.m * q.m, -(q.m * q.w))
DenSize(q, p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3] + p[4] * p[4] + q.m * q.m
DenVerdict(e) ==
  LET q == prop[e.s]
      p == Nums(e.p)
      want == Denominator(q, p)
      got == ObsAt(e.v, 1)
  IN Unless(/\ IsNum(Re(got)) /\ IsNum(Im(got))
            /\ Close(Re(got), Re(want), DenSize(q, p), "1e-17")
            /\ Close(Im(got), Im(want), Abs(q.m * q.w), "1e-17")
            /\ e.same, <<"denominator", got, "for", q, "should be", want>>)

\* -------------------------------------------------------------- registers
ObsM(x) == A!M2(ObsAt(x, 1), ObsAt(x, 2), ObsAt(x, 3), ObsAt(x, 4))
SeenM(e, r) == LET k == CHOOSE k \in DOMAIN e.M : e.M[k][1] = r IN ObsM(e.M[k][2])
SeenV(e, r) == LET k == CHOOSE k \in DOMAIN e.V : e.V[k][1] = r IN ObsVec(e.V[k][2])
RegsM(e) == {e.M[k][1] : k \in DOMAIN e.M}
RegsV(e) == {e.V[k][1] : k \in DOMAIN e.V}
Eps == "2e-18"

MatOps == {"mset", "mmom", "mzero", "m+", "m-", "m*", "m+=", "m-=", "m*=", "mneg", "outer", "ms", "sm", "m/s", "ms=", "m/s="}
VecOps == {"vset", "varr", "vzero", "vneg", "vconj", "vm", "mv", "vs", "sv"}
\* What the destination holds afterwards, and the size rounding is measured against.
NewM(e) ==
  CASE e.f = "mset" -> [v |-> ObsM(e.in), g |-> ZeroM]
    [] e.f = "mzero" -> [v |-> ZeroM, g |-> ZeroM]
    [] e.f = "mmom" -> LET p == Nums(e.p)
                           q == <<Abs(p[1]), Abs(p[2]), Abs(p[3]), Abs(p[4])>>
                           n == q[1] + q[2] + q[3] + q[4]
                       IN [v |-> IF e.ul = "U" THEN A!UpperMat(p) ELSE A!LowerMat(p), g |-> A!M2(n, n, n, n)]
    [] e.f \in {"m+", "m+="} -> [v |-> A!MatAdd(mats[e.a], mats[e.b]), g |-> A!MatAdd(A!MagM(mats[e.a]), A!MagM(mats[e.b]))]
    [] e.f \in {"m-", "m-="} -> [v |-> A!MatSub(mats[e.a], mats[e.b]), g |-> A!MatAdd(A!MagM(mats[e.a]), A!MagM(mats[e.b]))]
    [] e.f \in {"m*", "m*="} -> [v |-> A!MatTimes(mats[e.a], mats[e.b]), g |-> A!MatTimes(A!MagM(mats[e.a]), A!MagM(mats[e.b]))]
    [] e.f = "mneg" -> [v |-> A!MatNeg(mats[e.a]), g |-> ZeroM]
    [] e.f = "outer" -> [v |-> A!Outer(vecs[e.a], vecs[e.b]), g |-> A!Outer(A!MagV(vecs[e.a]), A!MagV(vecs[e.b]))]
    [] e.f \in {"ms", "sm", "ms="} -> [v |-> A!MatScale(ObsAt(e.z, 1), mats[e.a]), g |-> A!MatScale(Abs(ObsAt(e.z, 1)), A!MagM(mats[e.a]))]
    [] e.f \in {"m/s", "m/s="} -> [v |-> A!MatOver(mats[e.a], ObsAt(e.z, 1)), g |-> A!MatOver(A!MagM(mats[e.a]), Abs(ObsAt(e.z, 1)))]
NewV(e) ==
  CASE e.f \in {"vset", "varr"} -> [v |-> ObsVec(e.in), g |-> ZeroV]
    [] e.f = "vzero" -> [v |-> ZeroV, g |-> ZeroV]
    [] e.f = "vneg" -> [v |-> A!VecNeg(vecs[e.a]), g |-> ZeroV]
    [] e.f = "vconj" -> [v |-> A!VecConj(vecs[e.a]), g |-> ZeroV]
    [] e.f = "vm" -> [v |-> A!VecMat(vecs[e.a], mats[e.b]), g |-> A!VecMat(A!MagV(vecs[e.a]), A!MagM(mats[e.b]))]
    [] e.f = "mv" -> [v |-> A!MatVec(mats[e.a], vecs[e.b]), g |-> A!MatVec(A!MagM(mats[e.a]), A!MagV(vecs[e.b]))]
    [] e.f \in {"vs", "sv"} -> [v |-> A!VecScale(ObsAt(e.z, 1), vecs[e.a]), g |-> A!VecScale(Abs(ObsAt(e.z, 1)), A!MagV(vecs[e.a]))]
\* In place operations on a source register other than the destination change both.
InPlaceOther(e) == e.f \in {"ms=", "m/s="} /\ e.a # e.d

Kept(e, exceptM, exceptV) ==
  /\ \A r \in RegsM(e) \ exceptM : A!SameM(SeenM(e, r), mats[r])
  /\ \A r \in RegsV(e) \ exceptV : A!SameV(SeenV(e, r), vecs[r])

InRange(i) == i \in {0, 1}
ScalarVerdict(e, want, size) ==
  Unless(Close(ObsAt(e.v, 1), want, size, Eps) /\ Kept(e, {}, {}), <<e.f, ObsAt(e.v, 1), "should be", want>>)
GetVerdict(e, inside, want) ==
  IF inside THEN Unless(Returned(e) /\ A!SameC(ObsAt(e.v, 1), want) /\ Kept(e, {}, {}), <<"element", e>>)
  ELSE Unless(e.k = "err" /\ Kept(e, {}, {}), <<"index out of range not refused", e>>)
DetVerdict(e) ==
  LET m == mats[e.a]
      d == A!Det(m)
      size == Abs(m[1][1]) * Abs(m[2][2]) + Abs(m[1][2]) * Abs(m[2][1])
  IN IF Less(Abs(Im(d)), "1e-14") /\ Less(size, "1e3")
       THEN Unless(Returned(e) /\ Close(ObsAt(e.v, 1), Re(d), size, "1e-17") /\ Kept(e, {}, {}), <<"determinant", e, "should be", d>>)
     ELSE IF Less(Num("1e-11") + Num("1e-16") * size, Abs(Im(d)))
       THEN Unless(e.k = "err" /\ Kept(e, {}, {}), <<"determinant that is not real returned", e, d>>)
     ELSE Unless(Kept(e, {}, {}), <<"registers changed", e>>)
EqVerdict(e, gaps) ==
  LET same == \A g \in gaps : A!Near(g)
      diff == \E g \in gaps : A!Far(g)
  IN Unless(/\ e.eq # e.ne /\ (same => e.eq) /\ (diff => e.ne) /\ Kept(e, {}, {}), <<"comparison", e, gaps>>)

AlgVerdict(e) ==
  CASE e.f \in MatOps ->
         LET w == NewM(e)
             got == SeenM(e, e.d)
         IN Unless(/\ A!WithinM(got, w.v, w.g, Eps)
                   /\ (InPlaceOther(e) => A!SameM(SeenM(e, e.a), got))
                   /\ Kept(e, IF InPlaceOther(e) THEN {e.d, e.a} ELSE {e.d}, {})
                   /\ ("self" \in DOMAIN e => e.self), <<e.f, got, "should be", w.v>>)
    [] e.f \in VecOps ->
         LET w == NewV(e)
             got == SeenV(e, e.d)
         IN Unless(A!WithinV(got, w.v, w.g, Eps) /\ Kept(e, {}, {e.d}), <<e.f, got, "should be", w.v>>)
    [] e.f = "vv" -> ScalarVerdict(e, A!VecVec(vecs[e.a], vecs[e.b]), A!VecVec(A!MagV(vecs[e.a]), A!MagV(vecs[e.b])))
    [] e.f = "mget" -> GetVerdict(e, InRange(e.i) /\ InRange(e.j), IF InRange(e.i) /\ InRange(e.j) THEN mats[e.a][e.i + 1][e.j + 1] ELSE 0)
    [] e.f = "vget" -> GetVerdict(e, InRange(e.i), IF InRange(e.i) THEN vecs[e.a][e.i + 1] ELSE 0)
    [] e.f \in {"det", "fdet"} -> DetVerdict(e)
    [] e.f = "meq" -> EqVerdict(e, {A!Apart(mats[e.a][i][j], mats[e.b][i][j]) : i \in {1, 2}, j \in {1, 2}})
    [] e.f = "veq" -> EqVerdict(e, {A!Apart(vecs[e.a][i], vecs[e.b][i]) : i \in {1, 2}})
AlgStep(e) ==
  /\ mats' = [r \in DOMAIN mats |-> IF r \in RegsM(e) THEN SeenM(e, r) ELSE mats[r]]
  /\ vecs' = [r \in DOMAIN vecs |-> IF r \in RegsV(e) THEN SeenV(e, r) ELSE vecs[r]]
  /\ UNCHANGED prop

\* ------------------------------------------------------ spin combinatorics
\* The assignment of spinor labels in a recorded row a1,b1,a2,b2,...
RowOf(ds, row) == [k \in DOMAIN ds |-> [a |-> row[2 * k - 1], b |-> row[2 * k]]]
Covers(ds, rows) ==
  /\ Len(rows) = S!NumSpinLoops(ds)
  /\ {RowOf(ds, rows[i]) : i \in DOMAIN rows} = S!Assignments(ds)
SpinVerdict(e) ==
  LET n == S!NumSpinLoops(e.ds) IN
  Unless(/\ \A i \in DOMAIN e.loops : e.loops[i] = n
         /\ \A i \in DOMAIN e.norm : Close(Num(e.norm[i]), S!SpinNorm(e.ds), 1, "1e-14")
         /\ Covers(e.ds, e.list)
         /\ ("fixed" \in DOMAIN e => Covers(e.ds, e.fixed)), <<"spin sum of", e.ds, "loops", e.loops, "norm", e.norm, "should be", n, S!SpinNorm(e.ds)>>)

\* ----------------------------------------------------- rotations and boosts
Size4(p) == Abs(p[1]) + Abs(p[2]) + Abs(p[3]) + Abs(p[4])
RotVerdict(e) ==
  LET p == Nums(e.p)
      want == H!Rotate(p, Nums(e.u), Num(e.th))
      q == Nums(e.q)
      size == Size4(p) * (1 + Abs(Num(e.th)))
  IN Unless(H!Close4(q, want, size, "1e-17"), <<"rotated", e.q, "should be", want>>)
BoostVerdict(e) ==
  LET p == Nums(e.p)
      v == Nums(e.vel)
      g == 1 / Sqrt(1 - H!Dot3(v, v))
      want == H!Boost(p, v)
      q == Nums(e.q)
  IN Unless(H!Close4(q, want, Size4(p) * g * g * g, "1e-17"), <<"boosted", e.q, "should be", want>>)

\* ---------------------------------------------------------------- harness
InitVerdict(e) ==
  LET m == Nums(e.m)
      pin == Num(e.pin)
      w == H!CentreOfMass(m, pin, 0)
      out == H!PoutOf(m, pin)
      size == H!Total(m, pin)
      \* near threshold the final momentum is small against its rounding error
      soft == (size * size) / out
  IN Unless(/\ Close(Num(e.e1), w[1][1], size, "1e-17") /\ Close(Num(e.e2), w[2][1], size, "1e-17")
            /\ Close(Num(e.pout), out, soft, "1e-17")
            /\ Close(Num(e.e3), w[3][1], soft, "1e-17") /\ Close(Num(e.e4), w[4][1], soft, "1e-17"), <<"kinematics", e, "should be", w, out>>)
MomVerdict(e) ==
  LET x == Nums(e.x)
      c == x[7]
      sn == Sqrt(1 - c * c)
      want == <<<<x[1], 0, 0, x[3]>>, <<x[2], 0, 0, -x[3]>>, <<x[4], x[6] * sn, 0, x[6] * c>>, <<x[5], -(x[6] * sn), 0, -(x[6] * c)>>>>
      got == H!Split(Nums(e.q))
  IN Unless(\A i \in {1, 2, 3, 4} : H!Close4(got[i], want[i], Abs(x[1]) + Abs(x[2]) + Abs(x[3]) + Abs(x[6]), "1e-17"), <<"momenta", e.q, "should be", want>>)
MoveVerdict(e) ==
  LET p == H!Split(Nums(e.p))
      q == H!Split(Nums(e.q))
  IN Unless(/\ H!Numbers(e.q)
            /\ H!SameProducts(p, q, "1e-14") /\ H!SameVolume(p, q, "1e-14")
            /\ (e.op = "hrot" => H!SameEnergies(p, q, "1e-17"))
            /\ ~(\A i \in {1, 2, 3, 4} : H!Close4(p[i], q[i], p[i][1], "1e-9")), <<e.op, "of", e.p, "gave", e.q>>)

SeenAt(e, k) == H!Split(Nums(e.seen[k]))
\* The k-th momenta (k from 1) belong to the k-th angle, whatever the frame.
RightMomenta(e, k) ==
  LET ps == SeenAt(e, k)
      m == Nums(e.m)
      c == H!CosOf(e.var, k - 1)
      want == TLCEval(H!CentreOfMass(m, Num(e.pin), c))
      e0 == ps[1][1] + ps[2][1]
      size == e0 * e0
  IN /\ H!Numbers(e.seen[k])
     /\ H!Close4(H!Sum4(ps[1], ps[2]), H!Sum4(ps[3], ps[4]), e0, "1e-14")
     /\ \A ab \in H!Pairs : Close(H!Mink(ps[ab[1]], ps[ab[2]]), H!Mink(want[ab[1]], want[ab[2]]), size, "1e-14")
     /\ (e.var \in {"plain", "rot", "score"} => Close(e0, H!Total(m, Num(e.pin)), e0, "1e-15"))
\* A test in moved frames that never moves anything would be worthless.
Moves(e) ==
  CASE e.var = "rot" -> \E k \in DOMAIN e.seen : ~Close(SeenAt(e, k)[1][4], Num(e.pin), Num(e.pin), "1e-3")
    [] e.var \in {"boost", "both"} -> \E k \in DOMAIN e.seen : ~Close(SeenAt(e, k)[1][1] + SeenAt(e, k)[2][1], H!Total(Nums(e.m), Num(e.pin)), H!Total(Nums(e.m), Num(e.pin)), "1e-3")
    [] OTHER -> TRUE
DataOf(e, k) == Num(e.data[IntDiv(k - 1, H!PerAngle(e.var)) + 1])
Misses(e) == {k \in DOMAIN e.given : H!Mismatch(e.var, Num(e.given[k]), DataOf(e, k))}
RECURSIVE SumOver(_, _)
SumOver(e, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN H!Rel(Num(e.given[k]), DataOf(e, k)) + SumOver(e, ks \ {k})
RightResult(e) ==
  IF e.var = "score"
    THEN IF \A k \in DOMAIN e.given : IsNum(Num(e.given[k])) /\ ~(k \in Misses(e) /\ SameNum(Num(e.given[k]) + DataOf(e, k), 0)) THEN Close(Num(e.res), SumOver(e, Misses(e)), 1, "1e-12") ELSE ~IsNum(Num(e.res))
    ELSE SameNum(Num(e.res), Cardinality(Misses(e)))
RunVerdict(e) ==
  LET n == H!Calls(e.var) IN
  IF Len(e.given) # n \/ Len(e.seen) # n THEN Unless(FALSE, <<"compared", Len(e.given), "values at", Len(e.seen), "momenta instead of", n>>)
  ELSE IF \E k \in DOMAIN e.at : e.at[k] # k THEN Unless(FALSE, <<"values not taken right after their momenta", e.at>>)
  ELSE LET bad == {k \in DOMAIN e.seen : ~RightMomenta(e, k)} IN
       IF bad # {} THEN Unless(FALSE, <<"momenta of calls", bad, "do not belong to their angle">>)
       ELSE IF ~Moves(e) THEN Unless(FALSE, <<"frame never moved in", e.var>>)
       ELSE Unless(RightResult(e) /\ e.par, <<"result", e.res, "mismatches", Misses(e), "parameters passed on", e.par>>)

\* ----------------------------------------------------------------- random
Between(x, lo, hi) == IsNum(x) /\ Leq(lo, x) /\ Leq(x, hi)
OnShellRow(r, lo, hi) ==
  LET x == Nums(r) IN
  /\ \A i \in {3, 4, 5} : Between(x[i], lo, hi)
  /\ IsNum(x[1]) /\ IsNum(x[2]) /\ Leq(0, x[2])
  /\ Close(x[2] * x[2], x[1] * x[1] + x[3] * x[3] + x[4] * x[4] + x[5] * x[5], x[2] * x[2], "1e-17")
RowVerdict(e, r) ==
  LET lo == Num(e.lo) hi == Num(e.hi) IN
  CASE e.f \in {"int", "real", "cpl"} -> \A i \in DOMAIN r : Between(Num(r[i]), lo, hi)
    [] e.f = "mom" -> OnShellRow(r, lo, hi) /\ Between(Num(r[1]), 0, hi)
    [] e.f = "massless" -> OnShellRow(r, lo, hi) /\ SameNum(Num(r[1]), 0)
Whole(x) == \E n \in Range(0 - 60, 60) : SameNum(x, n)
\* Column c of the sample reaches every eighth of the range from lo to hi and never repeats.
Fills(e, c, lo, hi) ==
  LET w == (hi - lo) / 8 IN
  /\ Cardinality({e.s[i][c] : i \in DOMAIN e.s}) = Len(e.s)
  /\ \A j \in {0, 1, 2, 3, 4, 5, 6, 7} : \E i \in DOMAIN e.s : Leq(lo + w * j, Num(e.s[i][c])) /\ Leq(Num(e.s[i][c]), lo + w * (j + 1))
Spread(e) == \* integers: every value is hit; reals: every component fills its range
  IF e.f = "int" THEN LET got == {e.s[i][1] : i \in DOMAIN e.s} IN
        /\ \A i \in DOMAIN e.s : Whole(Num(e.s[i][1]))
        /\ (IntLess(400, Len(e.s)) => Close(Num(Cardinality(got)), Num(e.hi) - Num(e.lo) + 1, 1, "1e-9"))
  ELSE LET comps == IF e.f \in {"mom", "massless"} THEN {3, 4, 5} ELSE DOMAIN e.s[1] IN
       IntLess(400, Len(e.s)) => /\ \A c \in comps : Fills(e, c, Num(e.lo), Num(e.hi))
                                 /\ e.f = "mom" => Fills(e, 1, 0, Num(e.hi))
\* Components are drawn separately: they are not copies of each other.
Separate(e) == e.f \in {"cpl", "mom", "massless"} =>
  LET cs == IF e.f = "cpl" THEN {1, 2} ELSE {3, 4, 5} IN
  \A c \in cs, d \in cs : c # d => \E i \in DOMAIN e.s : e.s[i][c] # e.s[i][d]
RndVerdict(e) ==
  LET bad == {i \in DOMAIN e.s : ~RowVerdict(e, e.s[i])} IN
  Unless(bad = {} /\ Spread(e) /\ Separate(e), <<e.f, "in", e.lo, e.hi, "rows", {e.s[i] : i \in bad}>>)

\* ------------------------------------------------------------------ texts
ReadsBack(got, want) == Close(Re(got), Re(want), Abs(Re(want)), "1e-18") /\ Close(Im(got), Im(want), Abs(Im(want)), "1e-18")
TextVerdict(e) ==
  CASE e.op = "mstr" -> LET r == T!ReadNumber(e.out) IN Unless(r.ok /\ ReadsBack(r.v, Num(e.in)), <<"text", e.out, "for", e.in>>)
    [] e.op = "vmstr" -> LET r == T!ReadVector(e.out) IN
         Unless(r.ok /\ Len(r.list) = 2 /\ \A i \in {1, 2} : ReadsBack(r.list[i], ObsAt(e.in, i)), <<"text", e.out, "for", e.in>>)
    [] e.op = "mmstr" -> LET r == T!ReadMatrix(e.out) IN
         Unless(/\ r.ok /\ Len(r.list[1]) = 2 /\ Len(r.list[2]) = 2
                /\ \A i \in {1, 2}, j \in {1, 2} : ReadsBack(r.list[i][j], ObsAt(e.in, 2 * i + j - 2)), <<"text", e.out, "for", e.in>>)

\* Plain texts show the components in order to six digits; a stream gets the same text.
PlainVerdict(e) ==
  LET layout == IF e.op = "mtext" THEN "matrix" ELSE IF e.f = "polar" THEN "polar" ELSE "pairs"
      r == L!Read(e.out, layout)
      shown(k) == IF layout = "polar" THEN L!ShowsPolar(r.list[2 * k - 1], r.list[2 * k], ObsAt(e.in, k))
                  ELSE L!Shows(r.list[2 * k - 1], Re(ObsAt(e.in, k))) /\ L!Shows(r.list[2 * k], Im(ObsAt(e.in, k)))
  IN Unless(r.ok /\ (\A k \in DOMAIN e.in : shown(k)) /\ e.framed, <<"text", e.out, "for", e.in>>)

\* ---------------------------------------------------------------- walking
SetProp(s, q) == prop' = [prop EXCEPT ![s] = q] /\ UNCHANGED <<mats, vecs>>
Step(e) ==
  CASE e.op = "reset" ->
         /\ prop' = [s \in Slots |-> None]
         /\ mats' = [s \in Slots |-> ZeroM] /\ vecs' = [s \in Slots |-> ZeroV]
         /\ Consume(Allowed)
    [] e.op = "gnew" -> SetProp(e.s, [m |-> Num(e.m), w |-> Num(e.w)]) /\ Consume(Allowed)
    [] e.op = "gmass" -> SetProp(e.s, [m |-> Num(e.m), w |-> prop[e.s].w]) /\ Consume(Allowed)
    [] e.op = "gwidth" -> SetProp(e.s, [m |-> prop[e.s].m, w |-> Num(e.w)]) /\ Consume(Allowed)
    [] e.op \in {"gcopy", "gassign"} -> SetProp(e.s, prop[e.from]) /\ Consume(Allowed)
    [] e.op = "gden" -> Keep /\ Consume(DenVerdict(e))
    [] e.op = "alg" -> AlgStep(e) /\ Consume(AlgVerdict(e))
    [] e.op = "spin" -> Keep /\ Consume(SpinVerdict(e))
    [] e.op = "rot" -> Keep /\ Consume(RotVerdict(e))
    [] e.op = "boost" -> Keep /\ Consume(BoostVerdict(e))
    [] e.op = "hinit" -> Keep /\ Consume(InitVerdict(e))
    [] e.op = "hmom" -> Keep /\ Consume(MomVerdict(e))
    [] e.op \in {"hrot", "hboost"} -> Keep /\ Consume(MoveVerdict(e))
    [] e.op = "hrun" -> Keep /\ Consume(RunVerdict(e))
    [] e.op = "rnd" -> Keep /\ Consume(RndVerdict(e))
    [] e.op \in {"mstr", "mmstr", "vmstr"} -> Keep /\ Consume(TextVerdict(e))
    [] e.op \in {"vtext", "mtext"} -> Keep /\ Consume(PlainVerdict(e))
    [] OTHER -> Keep /\ Consume(Unless(FALSE, <<e.op, "during", e.call>>))

Init == /\ TraceInit
        /\ prop = [s \in Slots |-> None]
        /\ mats = [s \in Slots |-> ZeroM] /\ vecs = [s \in Slots |-> ZeroV]
Next == IntLess(l, Len(Trace)) /\ Step(Event)
Spec == Init /\ [][Next]_<<l, rejected, prop, mats, vecs>>
=============================================================================
