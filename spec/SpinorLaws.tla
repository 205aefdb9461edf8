----------------------------- MODULE SpinorLaws -----------------------------
(***************************************************************************)
(* What must be true of Spinor, ParticleState and Lorentz if they are to   *)
(* define spinors at all, whatever the code does.  TLC visits the masses   *)
(* and momenta of Points and evaluates every law there.                    *)
(***************************************************************************)
EXTENDS ParticleState, Points

VARIABLES a, b      \* names of two masses and momenta
vars == <<a, b>>

Names == {t \in {<<m, d>> : m \in Range(0, NMass), d \in Range(0, NDir)} : t # <<0, 0>>}
Init == a \in Names /\ b = <<0, 1>>
\* From every particle to a few others, light and heavy, near and far.
Next == /\ b = <<0, 1>> /\ a' = a
        /\ \E i \in Range(1, 6) : b' = <<IntMod(i, 4), RndInt(<<Seed, "law", a, i>>, NDir)>>
Spec == Init /\ [][Next]_vars

Eq(x, y, scale) == Less(Abs(x - y), Num("1e-30") * (1 + Abs(scale)))
EqV(x, y, s) == Eq(x[1], y[1], s) /\ Eq(x[2], y[2], s)
EqM(x, y, s) == EqV(x[1], y[1], s) /\ EqV(x[2], y[2], s)
OuterM(u, v) == <<<<u[1] * v[1], u[1] * v[2]>>, <<u[2] * v[1], u[2] * v[2]>>>>
RECURSIVE SumS(_, _)
SumS(f(_), js) == IF js = {} THEN 0 ELSE LET j == CHOOSE i \in js : TRUE IN f(j) + SumS(f, js \ {j})

P(t) == Particle(MassOf(t[1]), MomOf(t))

\* -------------------------------------------------------------- one particle
Big(x) == x.p[1] * x.p[1] + 1
Matrices(x) ==
  /\ Eq(Det(x.um), x.m * x.m, Big(x)) /\ Eq(Det(x.lm), x.m * x.m, Big(x))
  /\ EqM(MatMul(x.um, x.lm), MatScale(x.m * x.m, Identity), Big(x))
\* The Weyl equations: the momentum turns the spinor of one kind into m times that of the other.
Weyl(x) ==
  IF SameNum(x.m, 0)
  THEN /\ EqV(VecMat(x.la[0], x.lm), <<0, 0>>, Big(x)) /\ EqV(VecMat(x.ls[0], x.um), <<0, 0>>, Big(x))
       /\ EqV(MatVec(x.um, x.ra[0]), <<0, 0>>, Big(x)) /\ EqV(MatVec(x.lm, x.rs[0]), <<0, 0>>, Big(x))
  ELSE \A j \in Spins :
       /\ EqV(VecMat(x.la[j], x.lm), VecScale(x.m, x.ls[j]), Big(x)) /\ EqV(VecMat(x.ls[j], x.um), VecScale(x.m, x.la[j]), Big(x))
       /\ EqV(MatVec(x.um, x.ra[j]), VecScale(-x.m, x.rs[j]), Big(x)) /\ EqV(MatVec(x.lm, x.rs[j]), VecScale(-x.m, x.ra[j]), Big(x))
\* The momentum is the sum over spins of its spinors.
Complete(x) ==
  IF SameNum(x.m, 0) THEN EqM(OuterM(x.ra[0], x.ls[0]), x.lm, Big(x)) /\ EqM(OuterM(x.rs[0], x.la[0]), x.um, Big(x))
  ELSE LET low == LowerIndex(x.ls)
           lowa == LowerIndex(x.la)
       IN /\ EqM(MatAdd(OuterM(x.ra[-1], low[-1]), OuterM(x.ra[1], low[1])), x.lm, Big(x))
          /\ EqM(MatAdd(OuterM(x.rs[-1], lowa[-1]), OuterM(x.rs[1], lowa[1])), MatScale(-1, x.um), Big(x))
\* The spinors of one kind span the plane with determinant m.
Normal(x) ==
  SameNum(x.m, 0) \/ (/\ Eq(VecDot(x.la[-1], x.ra[1]), -x.m, Big(x)) /\ Eq(VecDot(x.la[1], x.ra[-1]), x.m, Big(x))
                      /\ Eq(VecDot(x.la[1], x.ra[1]), 0, Big(x)) /\ Eq(VecDot(x.ls[1], x.rs[1]), 0, Big(x))
                      /\ Eq(VecDot(x.ls[-1], x.rs[1]), x.m, Big(x)) /\ Eq(VecDot(x.ls[1], x.rs[-1]), -x.m, Big(x)))
Commutator(u, v) == MatSub(MatMul(u, v), MatMul(v, u))
AngularMomentum(j3, jp, jm, s) ==
  /\ EqM(Commutator(j3, jp), jp, s) /\ EqM(Commutator(j3, jm), MatScale(-1, jm), s) /\ EqM(Commutator(jp, jm), MatScale(2, j3), s)
Generators(x) ==
  LET g(n) == SpinGen(n, x.p) IN
  /\ AngularMomentum(g("spin_j3_ul"), g("spin_jp_ul"), g("spin_jm_ul"), 1)
  /\ AngularMomentum(MatScale(-1, g("spin_j3_lu")), g("spin_jm_lu"), g("spin_jp_lu"), 1)

\* ------------------------------------------------------------- two particles
BracketSq(kind, x, inner, y) ==
  LET v == BracketOf(kind, x, TRUE, inner, y, TRUE)
  IN SumS(LAMBDA i: SumS(LAMBDA j: AbsSq(v[i][j]), DOMAIN y.ra), DOMAIN x.ra)
Brackets(x, y) ==
  LET d == MinkDot(x.p, y.p)
      s == Sq(x.p[1] * y.p[1]) + 1
      an == BracketOf("angle", x, TRUE, <<>>, y, TRUE)
      na == BracketOf("angle", y, TRUE, <<>>, x, TRUE)
  IN /\ \A i \in DOMAIN x.ra : \A j \in DOMAIN y.ra : Eq(an[i][j], -na[j][i], s)
     /\ Eq(BracketSq("angle", x, <<>>, y), 2 * d, s) /\ Eq(BracketSq("square", x, <<>>, y), 2 * d, s)
     \* through a momentum: 4 (k.x)(k.y) - 2 k^2 (x.y)
     /\ LET k == P(<<2, 7>>) IN
        /\ Eq(BracketSq("angle", x, <<k>>, y), 4 * MinkDot(k.p, x.p) * MinkDot(k.p, y.p) - 2 * k.m * k.m * d, s * Big(k) * Big(k))
        /\ Eq(BracketSq("square", x, <<k>>, y), 4 * MinkDot(k.p, x.p) * MinkDot(k.p, y.p) - 2 * k.m * k.m * d, s * Big(k) * Big(k))
        \* twice the same momentum gives back the bracket times its square
        /\ Eq(BracketSq("angle", x, <<k, k>>, y), Sq(k.m * k.m) * 2 * d, s * Sq(Sq(Big(k))))

\* ---------------------------------------------------------- transformations
Near4(p, q, s) == \A i \in {1, 2, 3, 4} : Eq(p[i], q[i], s)
Moves(x, y) ==
  LET u == Unit3(Space(y.p))
      t == Between(-20, 20, <<Seed, "turn", a, b>>)
      v == Scale3(1 / (y.p[1] + 1), Space(y.p))
      rot(p, ang) == RotateAll(<<p, p, p, p>>, u, ang)[1]
      boost(p, w) == BoostAll(<<p, p, p, p>>, w)[1]
      neg == <<-v[1], -v[2], -v[3]>>
  IN /\ Near4(rot(rot(x.p, t), -t), x.p, Big(x))
     /\ Near4(rot(x.p, 8 * Num("3.14159265358979323846264338327950288419716940")), x.p, Big(x) * 1000)
     /\ Near4(rot(rot(x.p, t), 1), rot(x.p, t + 1), Big(x))
     /\ Near4(boost(boost(x.p, v), neg), x.p, Big(x) * Big(y) * Big(y))
     /\ Eq(MinkDot(boost(x.p, v), boost(y.p, v)), MinkDot(x.p, y.p), Big(x) * Big(x) * Big(y) * Big(y))
     /\ Eq(MinkDot(rot(x.p, t), rot(y.p, t)), MinkDot(x.p, y.p), Big(x) * Big(y))
     /\ Eq(rot(x.p, t)[1], x.p[1], Big(x))

Single == LET x == TLCEval(P(a)) IN Matrices(x) /\ Weyl(x) /\ Complete(x) /\ Normal(x) /\ Generators(x)
Pair == LET x == TLCEval(P(a))
            y == TLCEval(P(b))
        IN (b[2] # 0 => Moves(x, y)) /\ Brackets(x, y)
=============================================================================
