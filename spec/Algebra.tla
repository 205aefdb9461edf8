------------------------------ MODULE Algebra -------------------------------
(***************************************************************************)
(* Two-by-two complex matrices and two-component vectors held in           *)
(* registers, and what each operation computes from them.  Every operation *)
(* writes at most its destination; operands keep their values.             *)
(***************************************************************************)
EXTENDS CField, Sequences

\* ------------------------------------------------------------ operations
M2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
EachM(f(_, _)) == M2(f(1, 1), f(1, 2), f(2, 1), f(2, 2))
EachV(f(_)) == <<f(1), f(2)>>
MatAdd(a, b) == EachM(LAMBDA i, j: a[i][j] + b[i][j])
MatSub(a, b) == EachM(LAMBDA i, j: a[i][j] - b[i][j])
MatNeg(a) == EachM(LAMBDA i, j: -a[i][j])
MatTimes(a, b) == EachM(LAMBDA i, j: a[i][1] * b[1][j] + a[i][2] * b[2][j])
MatScale(z, a) == EachM(LAMBDA i, j: z * a[i][j])
MatOver(a, z) == EachM(LAMBDA i, j: a[i][j] / z)
VecNeg(a) == EachV(LAMBDA i: -a[i])
VecConj(a) == EachV(LAMBDA i: Conj(a[i]))
VecScale(z, a) == EachV(LAMBDA i: z * a[i])
VecVec(a, b) == a[1] * b[1] + a[2] * b[2]
VecMat(a, b) == EachV(LAMBDA i: a[1] * b[1][i] + a[2] * b[2][i])
MatVec(a, b) == EachV(LAMBDA i: a[i][1] * b[1] + a[i][2] * b[2])
Outer(a, b) == EachM(LAMBDA i, j: a[i] * b[j])
Det(a) == a[1][1] * a[2][2] - a[1][2] * a[2][1]
\* The momentum bispinors.
UpperMat(p) == M2(p[1] - p[4], Cx(-p[2], p[3]), Cx(-p[2], -p[3]), p[1] + p[4])
LowerMat(p) == M2(p[1] + p[4], Cx(p[2], -p[3]), Cx(p[2], p[3]), p[1] - p[4])

\* ------------------------------------------------------------ magnitudes
\* Rounding errors of a sum of products are small against the sum of the products' magnitudes.
MagM(a) == EachM(LAMBDA i, j: Abs(a[i][j]))
MagV(a) == EachV(LAMBDA i: Abs(a[i]))
WithinM(obs, want, mag, tol) == \A i \in {1, 2}, j \in {1, 2} : Close(obs[i][j], want[i][j], mag[i][j], tol)
WithinV(obs, want, mag, tol) == \A i \in {1, 2} : Close(obs[i], want[i], mag[i], tol)
SameC(a, b) == SameNum(Re(a), Re(b)) /\ SameNum(Im(a), Im(b))
SameM(a, b) == \A i \in {1, 2}, j \in {1, 2} : SameC(a[i][j], b[i][j])
SameV(a, b) == \A i \in {1, 2} : SameC(a[i], b[i])

\* ------------------------------------------------------------ comparisons
\* Equality allows for rounding: equal below a distance of 1e-14 in every element, different
\* above 1e-11, and either in between.
Apart(a, b) == Abs(a - b)
Near(x) == Less(x, "1e-14")
Far(x) == Less("1e-11", x)
=============================================================================
