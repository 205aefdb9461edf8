--------------------------- MODULE SpinorMachine ----------------------------
(***************************************************************************)
(* Particles and spinor products as a state machine over names of masses   *)
(* and momenta.                                                            *)
(*                                                                         *)
(* This is the user's view: a particle is its current mass and momentum,   *)
(* a product is its definition plus the knowledge of whether it has been   *)
(* told about the latest change of its particles.  Nothing is memorised.   *)
(* Whether the code agrees is decided in two ways: SpinorCache.tla models  *)
(* the memorisation of the code and is checked against this module, and    *)
(* GenSpinor.tla turns behaviours of this module into calls for the code,  *)
(* whose outcomes TraceSpinor.tla judges with numbers.                     *)
(*                                                                         *)
(* A mass is a natural number, 0 being massless; a momentum <<m, d>> is on *)
(* the mass shell of mass m only.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------------ state
\* A particle: "none" before construction, "fresh" when its last mass shell check passed and
\* no mass was set since, "stale" after its mass was set, "refused" after a failed check.
NoPart == [st |-> "none", m |-> 0, p |-> <<0, 0>>, ver |-> 0]
NoProd == [as |-> "", l |-> 0, lu |-> "", mid |-> <<>>, r |-> 0, ru |-> "", ok |-> FALSE, seen |-> <<>>]

OnShellSym(m, p) == p[1] = m
Check(ps, m, p) == [st |-> IF OnShellSym(m, p) THEN "fresh" ELSE "refused", m |-> m, p |-> p, ver |-> ps.ver + 1]

Members(x) == {x.l, x.r} \cup {x.mid[k] : k \in DOMAIN x.mid}
AllFresh(part, ss) == \A s \in ss : part[s].st = "fresh"
LowerOnMassless(part, x) == (x.lu = "L" /\ part[x.l].m = 0) \/ (x.ru = "L" /\ part[x.r].m = 0)
Synchronise(part, x) ==
  LET ok == AllFresh(part, Members(x)) /\ ~LowerOnMassless(part, x)
  IN [as |-> x.as, l |-> x.l, lu |-> x.lu, mid |-> x.mid, r |-> x.r, ru |-> x.ru, ok |-> ok,
      seen |-> IF ok THEN [s \in Members(x) |-> part[s].ver] ELSE <<>>]
Synced(part, x) == x.ok /\ \A s \in DOMAIN x.seen : part[s].st = "fresh" /\ part[s].ver = x.seen[s]

\* ------------------------------------------------------------------ calls
\* The state after call c.
AfterPart(part, c) ==
  CASE c.op = "pnew" -> [part EXCEPT ![c.s] = IF OnShellSym(c.m, c.p) THEN Check(@, c.m, c.p) ELSE @]
    [] c.op = "pnewm" -> [part EXCEPT ![c.s] = Check(@, c.m, <<c.m, 0>>)]
    [] c.op \in {"pcopy", "passign"} -> [part EXCEPT ![c.s] = [part[c.from] EXCEPT !.ver = part[c.s].ver + 1]]
    [] c.op = "pmass" -> [part EXCEPT ![c.s] = [@ EXCEPT !.st = IF @ = "refused" THEN "refused" ELSE "stale", !.m = c.m, !.ver = @ + 1]]
    [] c.op = "pmom" -> [part EXCEPT ![c.s] = Check(@, @.m, c.p)]
    [] c.op = "pupd" -> IF part[c.s].st = "refused" THEN part ELSE [part EXCEPT ![c.s] = Check(@, @.m, @.p)]
    [] OTHER -> part
AfterProd(part, prod, c) ==
  CASE c.op = "snew" -> [prod EXCEPT ![c.s] = Synchronise(part, c)]
    [] c.op = "supd" -> [prod EXCEPT ![c.s] = Synchronise(part, @)]
    \* a copy belongs to the same particles and knows as much about them
    [] c.op \in {"scopy", "sassign"} -> [prod EXCEPT ![c.s] = prod[c.from]]
    [] c.op = "sfree" -> [prod EXCEPT ![c.s] = NoProd]
    [] OTHER -> prod

\* What the user may rely on: "value" (the call returns, with the value of the current masses
\* and momenta), "refuse" (the call is rejected), "any" (not specified).
Arity(part, x) == (IF part[x.l].m = 0 THEN 0 ELSE 1) + (IF part[x.r].m = 0 THEN 0 ELSE 1)
Labels(js) == \A k \in DOMAIN js : js[k] \in {-1, 1}

SpinorForms == {"ra", "la", "rs", "ls"}
MatrixForms == {"ram", "lam", "rsm", "lsm"}
AlwaysForms == {"mass", "get_mass"}
Outcome(part, prod, c) ==
  CASE c.op = "pnew" -> IF OnShellSym(c.m, c.p) THEN "value" ELSE "refuse"
    [] c.op = "pmom" -> IF OnShellSym(part[c.s].m, c.p) THEN "value" ELSE "refuse"
    [] c.op = "pupd" -> IF part[c.s].st = "refused" THEN "any" ELSE IF OnShellSym(part[c.s].m, part[c.s].p) THEN "value" ELSE "refuse"
    [] c.op = "pq" ->
         LET ps == part[c.s] IN
         IF c.f \in AlwaysForms THEN "value"
         ELSE IF c.f \in SpinorForms /\ Len(c.a) # 0 /\ c.a[1] \notin {"-1", "1"} THEN "refuse"
         ELSE IF ps.st # "fresh" THEN "any"
         ELSE IF c.f \in SpinorForms THEN IF (Len(c.a) = 0) = (ps.m = 0) THEN "value" ELSE "refuse"
         ELSE IF c.f \in MatrixForms THEN IF ps.m = 0 THEN "refuse" ELSE "value"
         ELSE "value"
    [] c.op \in {"snew", "supd"} ->
         LET x == IF c.op = "snew" THEN c ELSE prod[c.s] IN
         IF ~AllFresh(part, Members(x)) THEN "any" ELSE IF LowerOnMassless(part, x) THEN "refuse" ELSE "value"
    [] c.op = "sv" ->
         LET x == prod[c.s] IN
         IF ~Synced(part, x) THEN "any" ELSE IF Len(c.j) = Arity(part, x) /\ Labels(c.j) THEN "value" ELSE "refuse"
    [] OTHER -> "value"
=============================================================================
