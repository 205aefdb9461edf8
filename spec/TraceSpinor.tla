---------------------------- MODULE TraceSpinor -----------------------------
(***************************************************************************)
(* Traces of calls on particles and spinor products.                       *)
(***************************************************************************)
EXTENDS ParticleState, TraceBase

VARIABLES part,   \* slot -> state of a particle (ParticleState)
          prod    \* slot -> state of a spinor product

Tol == Num("1e-11")

Nums(p) == TLCEval(<<Num(p[1]), Num(p[2]), Num(p[3]), Num(p[4])>>)
Slot(t) == CHOOSE s \in DOMAIN part : ToString(s) = t
NewVer(s) == IF s \in DOMAIN part THEN part[s].ver + 1 ELSE 1

\* ------------------------------------------------------------- particles
\* The verdict on a call that checks the mass shell.
ShellVerdict(e, m, p) ==
  IF OnShell(m, p) THEN Unless(Returned(e), "momentum on the mass shell refused")
  ELSE IF OffShell(m, p) THEN Unless(Threw(e, "runtime_error"), "momentum off the mass shell accepted")
  ELSE Allowed

Mag(ps) == MaxNum(Abs(ps.p[1]), ps.m)
PartQuery(ps, e) ==
  LET f == e.f
      a == e.a
      root == Sqrt(2 * Mag(ps))
  IN CASE f \in SpinorNames ->
            IF Len(a) # 0 /\ Ints[a[1]] \notin Spins THEN Unless(Threw(e, "runtime_error"), <<f, a, "spin label other than -1 and 1 accepted">>)
            ELSE IF ps.st # "fresh" THEN Allowed
            ELSE IF ~SpinorLegal(ps, a) THEN Unless(Threw(e, "runtime_error"), <<f, a, "spinor form not matching the mass accepted">>)
            ELSE Unless(Returned(e) /\ CloseVec(ObsVec(e.v), SpinorWant(ps, f, a), root, Tol), <<f, a, "expected", SpinorWant(ps, f, a)>>)
       [] f \in MatrixNames ->
            IF ps.st # "fresh" THEN Allowed
            ELSE IF Massless(ps) THEN Unless(Threw(e, "runtime_error"), <<f, a, "spinor matrix of a massless particle">>)
            ELSE Unless(Returned(e) /\ CloseMat(ObsMat(e.v), MatrixWant(ps, f, a), root, Tol), <<f, a, "expected", MatrixWant(ps, f, a)>>)
       [] f = "um" -> IF ps.st # "fresh" THEN Allowed ELSE Unless(Returned(e) /\ CloseMat(ObsMat(e.v), UpperMat(ps.p), Mag(ps), Tol), <<f, "expected", UpperMat(ps.p)>>)
       [] f = "lm" -> IF ps.st # "fresh" THEN Allowed ELSE Unless(Returned(e) /\ CloseMat(ObsMat(e.v), LowerMat(ps.p), Mag(ps), Tol), <<f, "expected", LowerMat(ps.p)>>)
       [] f \in {"mass", "get_mass"} -> Unless(Returned(e) /\ SameNum(ObsAt(e.v, 1), ps.m), <<f, "expected", ps.m>>)
       [] f = "mom" -> IF ps.st = "refused" THEN Allowed
                       ELSE Unless(Returned(e) /\ \A k \in DOMAIN ps.p : SameNum(ObsAt(e.v, k), ps.p[k]), <<f, "expected", ps.p>>)
       [] f = "angles" -> IF ps.st # "fresh" THEN Allowed ELSE Unless(Returned(e) /\ e.b, "angles do not reproduce the momentum")
       [] f = "dot" -> LET o == part[Slot(a[1])] IN
                       IF ps.st = "refused" \/ o.st = "refused" THEN Allowed
                       ELSE Unless(Returned(e) /\ Close(ObsAt(e.v, 1), MinkDot(ps.p, o.p), Mag(ps) * Mag(o), Tol), <<f, a, "expected", MinkDot(ps.p, o.p)>>)
       [] f \in SpinGens -> IF ps.st # "fresh" THEN Allowed
                       ELSE Unless(Returned(e) /\ CloseMat(ObsMat(e.v), SpinGen(f, ps.p), 1, Tol), <<f, "expected", SpinGen(f, ps.p)>>)
       [] f \in LorentzGens ->
            IF ps.st # "fresh" THEN Allowed
            ELSE IF ~Massless(ps) THEN LET w == TLCEval(LorentzWant(ps, f)) IN Unless(Returned(e) /\ CloseMat(ObsMat(e.v), w, 1 + Sqrt(AbsSq(w[1][1]) + AbsSq(w[1][2]) + AbsSq(w[2][1])), Num("1e-9")), <<f, "expected", w>>)
            ELSE IF ~Ladder(f) THEN LET w == LorentzWant(Heavier(ps), f) IN Unless(Returned(e) /\ CloseMat(ObsMat(e.v), w, 1, Tol), <<f, "massless, expected", w>>)
            ELSE IF VanishesMassless(f) THEN Unless(Returned(e) /\ CloseMat(ObsMat(e.v), <<<<0, 0>>, <<0, 0>>>>, 1, Tol), <<f, "of a massless particle does not vanish">>)
            ELSE Unless(Returned(e) /\ CloseVec(MatVec(ObsMat(e.v), ps.part[LorentzTarget(f)][0]), <<0, 0>>, root, Tol), <<f, "does not annihilate the massless spinor">>)

\* -------------------------------------------------------- spinor products
\* A product sees its particles as they were at its construction or last update; its value is
\* specified while they are fresh and have not changed since.
Synced(x) == x.ok /\ \A s \in DOMAIN x.seen : s \in DOMAIN part /\ part[s].st = "fresh" /\ part[s].ver = x.seen[s]
Members(e) == {e.l, e.r} \cup {e.mid[k] : k \in DOMAIN e.mid}
AllFresh(ss) == \A s \in ss : s \in DOMAIN part /\ part[s].st = "fresh"
LowerOnMassless(x) == (x.lu = "L" /\ Massless(part[x.l])) \/ (x.ru = "L" /\ Massless(part[x.r]))
Value(x) == BracketOf(IF x.as = "A" THEN "angle" ELSE "square", part[x.l].part, x.lu # "L",
                      [k \in DOMAIN x.mid |-> part[x.mid[k]].part], part[x.r].part, x.ru # "L")
RECURSIVE Sizes(_, _)
Sizes(mid, k) == IF IntLess(Len(mid), k) THEN 1 ELSE 2 * Mag(part[mid[k]]) * Sizes(mid, k + 1)
Size(x) == 2 * Sqrt(Mag(part[x.l]) * Mag(part[x.r])) * Sizes(x.mid, 1)

\* State of a product after construction or update.
Synchronised(x, ok) ==
  [as |-> x.as, l |-> x.l, lu |-> x.lu, mid |-> x.mid, r |-> x.r, ru |-> x.ru, ok |-> ok,
   seen |-> IF ok THEN [s \in Members(x) |-> part[s].ver] ELSE <<>>,
   val |-> IF ok THEN Value(x) ELSE <<>>, size |-> IF ok THEN Size(x) ELSE 0]
SyncVerdict(e, x) ==
  IF ~AllFresh(Members(x)) THEN Allowed
  ELSE IF LowerOnMassless(x) THEN Unless(Threw(e, "runtime_error"), "lower spin index on a massless end accepted")
  ELSE Unless(Returned(e), "legal spinor product refused")
SyncOK(x) == AllFresh(Members(x)) /\ ~LowerOnMassless(x)

Arity(x) == (IF Massless(part[x.l]) THEN 0 ELSE 1) + (IF Massless(part[x.r]) THEN 0 ELSE 1)
ProdQuery(x, e) ==
  IF ~Synced(x) THEN Allowed
  ELSE IF Len(e.j) # Arity(x) THEN Unless(Threw(e, "runtime_error"), <<"product asked with", Len(e.j), "spin labels">>)
  ELSE IF \E k \in DOMAIN e.j : e.j[k] \notin Spins THEN Unless(Threw(e, "runtime_error"), <<"product asked with spin labels", e.j>>)
  ELSE LET jl == IF Massless(part[x.l]) THEN 0 ELSE e.j[1]
           jr == IF Massless(part[x.r]) THEN 0 ELSE e.j[Len(e.j)]
           want == x.val[jl][jr]
       IN Unless(Returned(e) /\ Close(ObsAt(e.v, 1), want, x.size, Tol), <<"product", x.as, x.l, x.lu, x.mid, x.r, x.ru, e.j, "expected", want>>)

SetPart(s, x) == part' = (s :> x) @@ part
SetProd(s, x) == prod' = (s :> x) @@ prod

Step(e) ==
  CASE e.op = "reset" -> part' = <<>> /\ prod' = <<>> /\ Consume(Allowed)
    [] e.op = "pnew" -> LET m == Num(e.m)
                            p == Nums(e.p)
                        IN \* a failed construction leaves the particle of that name as it was
                           (IF Returned(e) THEN SetPart(e.s, Checked(m, p, OnShell(m, p), NewVer(e.s))) ELSE UNCHANGED part)
                           /\ UNCHANGED prod /\ Consume(ShellVerdict(e, m, p))
    [] e.op = "pnewm" -> LET m == Num(e.m) IN SetPart(e.s, Checked(m, <<m, 0, 0, 0>>, TRUE, NewVer(e.s))) /\ UNCHANGED prod /\ Consume(Unless(Returned(e), "particle at rest refused"))
    [] e.op \in {"pcopy", "passign"} -> SetPart(e.s, [part[e.from] EXCEPT !.ver = NewVer(e.s)]) /\ UNCHANGED prod /\ Consume(Allowed)
    [] e.op = "pmass" -> SetPart(e.s, MassSet(part[e.s], Num(e.m))) /\ UNCHANGED prod /\ Consume(Unless(Returned(e), "set_mass failed"))
    [] e.op = "pmom" -> LET m == part[e.s].m
                            p == Nums(e.p)
                        IN SetPart(e.s, Checked(m, p, OnShell(m, p), NewVer(e.s))) /\ UNCHANGED prod /\ Consume(ShellVerdict(e, m, p))
    [] e.op = "pupd" -> LET ps == part[e.s] IN
                        IF ps.st = "refused" THEN UNCHANGED <<part, prod>> /\ Consume(Allowed)
                        ELSE SetPart(e.s, Checked(ps.m, ps.p, OnShell(ps.m, ps.p), NewVer(e.s))) /\ UNCHANGED prod /\ Consume(ShellVerdict(e, ps.m, ps.p))
    [] e.op = "pq" -> UNCHANGED <<part, prod>> /\ Consume(PartQuery(part[e.s], e))
    [] e.op = "snew" -> UNCHANGED part /\ SetProd(e.s, Synchronised(e, SyncOK(e))) /\ Consume(SyncVerdict(e, e))
    [] e.op = "supd" -> UNCHANGED part /\ SetProd(e.s, Synchronised(prod[e.s], SyncOK(prod[e.s]))) /\ Consume(SyncVerdict(e, prod[e.s]))
    [] e.op \in {"scopy", "sassign"} -> UNCHANGED part /\ SetProd(e.s, prod[e.from]) /\ Consume(Unless(Returned(e), "copying a product failed"))
    [] e.op = "sfree" -> UNCHANGED part /\ prod' = [s \in DOMAIN prod \ {e.s} |-> prod[s]] /\ Consume(Allowed)
    [] e.op = "sv" -> UNCHANGED <<part, prod>> /\ Consume(ProdQuery(prod[e.s], e))
    [] OTHER -> UNCHANGED <<part, prod>> /\ Consume(Unless(FALSE, <<e.op, "during", e.call>>))

Init == TraceInit /\ part = <<>> /\ prod = <<>>
Next == IntLess(l, Len(Trace)) /\ Step(Event)
Spec == Init /\ [][Next]_<<l, rejected, part, prod>>
=============================================================================
