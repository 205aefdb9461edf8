------------------------------ MODULE SpinSum -------------------------------
(***************************************************************************)
(* How a massive spin-1 particle of twice-spin d in {-2, 0, 2} is built    *)
(* from two spin-1/2 indices: (-,-), the symmetric combination of (+,-)    *)
(* and (-,+), and (+,+).  For a list of such particles an amplitude is a   *)
(* normalised sum over all assignments of index pairs.                     *)
(***************************************************************************)
EXTENDS CField, Sequences, FiniteSets

Zeros(ds) == {k \in DOMAIN ds : ds[k] = 0}

RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

NumSpinLoops(ds) == TwoTo(Cardinality(Zeros(ds)))
SpinNorm(ds) == 1 / Sqrt(NumSpinLoops(ds))

PairsOf(d) == IF d = 0 THEN {[a |-> 1, b |-> -1], [a |-> -1, b |-> 1]}
              ELSE IF IntLess(d, 0) THEN {[a |-> -1, b |-> -1]} ELSE {[a |-> 1, b |-> 1]}

\* All assignments of index pairs to the particles: the terms of the sum.
Assignments(ds) == {f \in [DOMAIN ds -> UNION {PairsOf(ds[k]) : k \in DOMAIN ds}] : \A k \in DOMAIN ds : f[k] \in PairsOf(ds[k])}

\* One enumeration of them: the k-th zero follows the k-th bit of i.
Rank(ds, k) == Cardinality({j \in Zeros(ds) : IntLess(j, k)})
BitOf(i, r) == IntMod(IntDiv(i, TwoTo(r)), 2)
SpinorSpins(ds, i) ==
  [k \in DOMAIN ds |->
     IF ds[k] = 0 THEN IF BitOf(i, Rank(ds, k)) = 0 THEN [a |-> 1, b |-> -1] ELSE [a |-> -1, b |-> 1]
     ELSE IF IntLess(ds[k], 0) THEN [a |-> -1, b |-> -1] ELSE [a |-> 1, b |-> 1]]
=============================================================================
