------------------------------- MODULE Spinor -------------------------------
(***************************************************************************)
(* Two-component spinors and momentum matrices of a particle of mass m and *)
(* four-momentum p = <<E, px, py, pz>>, in the helicity basis.             *)
(*                                                                         *)
(* A two-vector is <<v1, v2>>, a matrix is <<row1, row2>>.                 *)
(***************************************************************************)
EXTENDS CField, TLC, Sequences

\* ------------------------------------------------------ linear algebra
VecScale(k, v) == <<k * v[1], k * v[2]>>
VecConj(v) == <<Conj(v[1]), Conj(v[2])>>
VecDot(u, v) == u[1] * v[1] + u[2] * v[2]
MatVec(m, v) == <<VecDot(m[1], v), VecDot(m[2], v)>>
VecMat(v, m) == <<v[1] * m[1][1] + v[2] * m[2][1], v[1] * m[1][2] + v[2] * m[2][2]>>
MatMul(a, b) == <<VecMat(a[1], b), VecMat(a[2], b)>>
MatScale(k, m) == <<VecScale(k, m[1]), VecScale(k, m[2])>>
MatAdd(a, b) == <<<<a[1][1] + b[1][1], a[1][2] + b[1][2]>>, <<a[2][1] + b[2][1], a[2][2] + b[2][2]>>>>
MatSub(a, b) == MatAdd(a, MatScale(-1, b))
VecAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
VecSub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
Det(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Transpose(m) == <<<<m[1][1], m[2][1]>>, <<m[1][2], m[2][2]>>>>
Identity == <<<<1, 0>>, <<0, 1>>>>
\* The antisymmetric tensor applied to a spinor: raises or lowers its spinor index.
Eps(v) == <<v[2], -v[1]>>

\* ------------------------------------------------------------ momenta
MinkDot(p, q) == p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4]
P3Sq(p) == p[2] * p[2] + p[3] * p[3] + p[4] * p[4]
OnShellEnergy(m, p3) == Sqrt(m * m + p3[1] * p3[1] + p3[2] * p3[2] + p3[3] * p3[3])
\* c1*mom[1] + ... + cn*mom[n], componentwise
Comb(mom, cs) ==
  LET comp(mu) == cs[1] * mom[1][mu] + cs[2] * mom[2][mu] + cs[3] * mom[3][mu] + cs[4] * mom[4][mu]
  IN <<comp(1), comp(2), comp(3), comp(4)>>

\* p.sigma with lower and upper spinor indices
LowerMat(p) == <<<<p[1] + p[4], Cx(p[2], -p[3])>>, <<Cx(p[2], p[3]), p[1] - p[4]>>>>
UpperMat(p) == <<<<p[1] - p[4], Cx(-p[2], p[3])>>, <<Cx(-p[2], -p[3]), p[1] + p[4]>>>>

\* ------------------------------------------------------------ spinors
\* Half-angle functions of the direction of p: <<cos(theta/2), sin(theta/2) e^(i phi)>>.
\* A particle at rest is quantised along +z; phi = 0 on the z axis.
Direction(p) ==
  LET xy == Sqrt(p[2] * p[2] + p[3] * p[3])
      mag == Sqrt(P3Sq(p))
      big == Sqrt((mag + Sqrt(p[4] * p[4])) / (2 * mag))      \* the half-angle function >= 1/sqrt(2)
      small == xy / (2 * mag * big)
      up == Leq(0, p[4])
      ch == IF up THEN big ELSE small
      sh == IF up THEN small ELSE big
      phase == IF SameNum(xy, 0) THEN 1 ELSE Cx(p[2], p[3]) / xy
  IN IF SameNum(mag, 0) THEN <<1, 0>> ELSE <<ch, sh * phase>>

Flip(v) == <<-Conj(v[2]), Conj(v[1])>>       \* the opposite helicity state

Spins == {-1, 1}

\* The four kinds of spinor of a particle, as functions of (twice) the spin index,
\* with the little-group index up.  A massless particle has the single index 0.
RAngleUp(m, p) ==
  LET d == TLCEval(Direction(p))
      mag == Sqrt(P3Sq(p))
      plus == Sqrt(p[1] + mag)
      minus == m / plus             \* sqrt(E - |p|), without the cancellation
  IN IF SameNum(m, 0) THEN [j \in {0} |-> VecScale(plus, d)]
     ELSE [j \in Spins |-> IF j = -1 THEN VecScale(plus, d) ELSE VecScale(minus, Flip(d))]

LowerIndex(f) == [j \in Spins |-> IF j = -1 THEN f[1] ELSE VecScale(-1, f[-1])]
ApplyEps(f) == [j \in DOMAIN f |-> Eps(f[j])]

\* Everything about one particle.  ra, la, rs, ls: |p>, <p|, |p], [p|.
Particle(m, p) ==
  LET ra == TLCEval(RAngleUp(m, p))
      ls == IF 0 \in DOMAIN ra THEN [j \in {0} |-> VecConj(ra[0])]
            ELSE [j \in Spins |-> VecScale(-1, VecConj(LowerIndex(ra)[j]))]
  IN TLCEval([m |-> m, p |-> p, ra |-> ra, la |-> TLCEval(ApplyEps(ra)),
              ls |-> TLCEval(ls), rs |-> TLCEval(ApplyEps(TLCEval(ls))),
              um |-> UpperMat(p), lm |-> LowerMat(p)])

SpinorOf(part, kind, upper) == IF upper THEN part[kind] ELSE LowerIndex(part[kind])

\* ----------------------------------------------------- spinor brackets
\* <L| p1 p2 ... |R> or [L| p1 p2 ... |R]: the left spinor is an angle or a square
\* one, lower and upper momentum matrices alternate (so that indices contract), and
\* the right spinor is of the kind that closes the chain.
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(v, angle, inner, k) ==
  IF IntLess(Len(inner), k) THEN v
  ELSE ChainFrom(VecMat(v, IF angle THEN inner[k].lm ELSE inner[k].um), ~angle, inner, k + 1)

BracketOf(kind, L, lUp, inner, R, rUp) ==
  LET angle == kind = "angle"
      endsAngle == IF IntMod(Len(inner), 2) = 0 THEN angle ELSE ~angle
      lefts == SpinorOf(L, IF angle THEN "la" ELSE "ls", lUp)
      rights == SpinorOf(R, IF endsAngle THEN "ra" ELSE "rs", rUp)
  IN TLCEval([jl \in DOMAIN lefts |->
       LET v == TLCEval(ChainFrom(lefts[jl], angle, inner, 1))
       IN TLCEval([jr \in DOMAIN rights |-> VecDot(v, rights[jr])])])
=============================================================================
