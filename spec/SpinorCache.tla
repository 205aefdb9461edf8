---------------------------- MODULE SpinorCache -----------------------------
(***************************************************************************)
(* How the code keeps computed spinors, matrices and products, checked     *)
(* against SpinorMachine.  Every kept value carries the mass and momentum  *)
(* (for a product: those of all its particles) it was computed from; the   *)
(* invariant is that whenever the user may rely on a value, the code       *)
(* returns the one of the current masses and momenta, and that whenever    *)
(* the user may rely on a refusal the code refuses.                        *)
(*                                                                         *)
(* Particle: kept quantities are one spinor of each of the two forms and   *)
(* one momentum matrix, dropped by every successful mass shell check.      *)
(* Product: at construction and update the massiveness of its ends and the *)
(* product of the inner momentum matrices are taken down and the computed  *)
(* values dropped; a value is computed on first demand.                    *)
(***************************************************************************)
EXTENDS SpinorMachine

CONSTANTS Slots,      \* particle slots
          Masses,
          Copies,     \* whether particles are assigned to each other
          Inner,      \* inner particles of products: a set of slots, 0 for none; {} for no products
          Depth,      \* histories are followed for this many calls where the constraint is used
          Mutant      \* a deliberately broken rule, or "none"

VARIABLES part, prod,           \* the user's view
          kept,                 \* slot -> quantity -> <<>> or <<mass, momentum>> it was computed from
          drv,                  \* slot -> <<mass, momentum>> the derived angles belong to
          px,                   \* what the product keeps: lm, rm, inner, val
          last,                 \* the last call and what the code answered
          fresh                 \* number of momenta used so far: each new momentum is unlike all before

vars == <<part, prod, kept, drv, px, last, fresh>>

Quantities == {"m0", "m1", "mat"}        \* massless spinor, massive spinor, momentum matrix
NoKept == [q \in Quantities |-> <<>>]
None == <<>>
Now(s) == <<part[s].m, part[s].p>>

Quantity(c) == IF c.f = "lm" THEN "mat" ELSE IF Len(c.a) = 0 THEN "m0" ELSE "m1"
PQ(s) == {[op |-> "pq", s |-> s, f |-> "la", a |-> <<>>], [op |-> "pq", s |-> s, f |-> "la", a |-> <<"1">>],
          [op |-> "pq", s |-> s, f |-> "lm", a |-> <<>>]}

\* The answer of the code to a particle query, and what it keeps.
KeptNow(k, s, q) == IF k[s][q] # <<>> THEN k[s][q] ELSE drv[s]
\* A kept spinor is returned before the mass is looked at; only an unkept one tests the mass.
QRefuses(k, s, q) == k[s][q] = <<>> /\ ((q = "m0" /\ part[s].m # 0) \/ (q = "m1" /\ part[s].m = 0))

Init ==
  /\ part = [s \in Slots |-> [NoPart EXCEPT !.st = "fresh", !.m = s % 2, !.p = <<s % 2, s>>, !.ver = 1]]
  /\ kept = [s \in Slots |-> NoKept]
  /\ drv = [s \in Slots |-> <<s % 2, <<s % 2, s>>>>]
  /\ prod = [s \in {1} |-> NoProd]
  /\ px = [made |-> FALSE, lm |-> FALSE, rm |-> FALSE, inner |-> <<>>, val |-> <<>>]
  /\ last = [want |-> "any", got |-> "value", v |-> <<>>, now |-> <<>>]
  /\ fresh = Cardinality(Slots)

Note(c, got, v, now) == last' = [want |-> Outcome(part, prod, c), got |-> got, v |-> v, now |-> now]

\* set_mass only stores the mass; set_momentum stores, checks, and on success drops everything kept.
Mass(s, m) ==
  LET c == [op |-> "pmass", s |-> s, m |-> m] IN
  /\ part' = AfterPart(part, c) /\ UNCHANGED <<prod, kept, drv, px>>
  /\ last' = [want |-> "any", got |-> "value", v |-> <<>>, now |-> <<>>]
Reset(s, c) ==
  LET after == AfterPart(part, c)[s] IN
  IF after.st = "refused"
  THEN part' = AfterPart(part, c) /\ UNCHANGED <<kept, drv>> /\ Note(c, "refuse", <<>>, <<>>)
  ELSE /\ part' = AfterPart(part, c)
       /\ kept' = [kept EXCEPT ![s] = IF Mutant = "keepmat" THEN [NoKept EXCEPT !.mat = kept[s].mat] ELSE NoKept]
       /\ drv' = [drv EXCEPT ![s] = <<after.m, after.p>>]
       /\ Note(c, "value", <<>>, <<>>)
Mom(s, p) == Reset(s, [op |-> "pmom", s |-> s, p |-> p]) /\ UNCHANGED <<prod, px>>
Upd(s) == part[s].st # "refused" /\ Reset(s, [op |-> "pupd", s |-> s]) /\ UNCHANGED <<prod, px>>
Query(s, c) ==
  LET q == Quantity(c) IN
  /\ UNCHANGED <<part, prod, drv, px>>
  /\ IF QRefuses(kept, s, q) THEN UNCHANGED kept /\ Note(c, "refuse", <<>>, <<>>)
     ELSE /\ kept' = [kept EXCEPT ![s][q] = KeptNow(kept, s, q)]
          /\ Note(c, "value", KeptNow(kept, s, q), Now(s))
Assign(d, s) ==
  LET c == [op |-> "passign", s |-> d, from |-> s] IN
  /\ part' = AfterPart(part, c) /\ kept' = [kept EXCEPT ![d] = kept[s]] /\ drv' = [drv EXCEPT ![d] = drv[s]]
  /\ UNCHANGED <<prod, px>> /\ last' = [want |-> "any", got |-> "value", v |-> <<>>, now |-> <<>>]

\* One product, <L|M|R> with the left index up or down.
SetUp(c, x) ==
  LET lm == part[x.l].m # 0
      rm == part[x.r].m # 0
  IN IF (x.lu = "L" /\ ~lm) \/ (x.ru = "L" /\ ~rm)
     THEN /\ px' = [px EXCEPT !.made = TRUE, !.lm = lm, !.rm = rm]
          /\ UNCHANGED kept /\ Note(c, "refuse", <<>>, <<>>)
     ELSE LET mid == IF Len(x.mid) = 0 THEN 0 ELSE x.mid[1] IN
          /\ kept' = IF mid = 0 THEN kept ELSE [kept EXCEPT ![mid].mat = KeptNow(kept, mid, "mat")]
          /\ px' = [made |-> TRUE, lm |-> lm, rm |-> rm, inner |-> IF mid = 0 THEN <<>> ELSE KeptNow(kept, mid, "mat"),
                    val |-> IF Mutant = "keepval" THEN px.val ELSE <<>>]
          /\ Note(c, "value", <<>>, <<>>)
SNew(l, lu, mid, r) ==
  LET c == [op |-> "snew", s |-> 1, as |-> "A", l |-> l, lu |-> lu, mid |-> mid, r |-> r, ru |-> "U"] IN
  /\ prod' = AfterProd(part, prod, c) /\ UNCHANGED <<part, drv>> /\ SetUp(c, c)
SUpd ==
  LET c == [op |-> "supd", s |-> 1] IN
  /\ px.made /\ prod' = AfterProd(part, prod, c) /\ UNCHANGED <<part, drv>> /\ SetUp(c, prod[1])
SV(j) ==
  LET c == [op |-> "sv", s |-> 1, j |-> j]
      x == prod[1]
      bad == Len(j) # (IF px.lm THEN 1 ELSE 0) + (IF px.rm THEN 1 ELSE 0) \/ ~Labels(j)
      ql == IF px.lm THEN "m1" ELSE "m0"
      qr == IF px.rm THEN "m1" ELSE "m0"
      stop == QRefuses(kept, x.l, ql) \/ QRefuses(kept, x.r, qr)
      anew == <<KeptNow(kept, x.l, ql), px.inner, KeptNow(kept, x.r, qr)>>
      now == <<Now(x.l), IF Len(x.mid) = 0 THEN <<>> ELSE Now(x.mid[1]), Now(x.r)>>
  IN /\ px.made /\ UNCHANGED <<part, prod, drv>>
     /\ IF bad \/ (px.val = <<>> /\ stop) THEN UNCHANGED <<kept, px>> /\ Note(c, "refuse", <<>>, <<>>)
        ELSE IF px.val # <<>> THEN UNCHANGED <<kept, px>> /\ Note(c, "value", px.val, now)
        ELSE /\ kept' = [kept EXCEPT ![x.l][ql] = KeptNow(kept, x.l, ql), ![x.r][qr] = KeptNow(kept, x.r, qr)]
             /\ px' = [px EXCEPT !.val = anew] /\ Note(c, "value", anew, now)

Next ==
  \/ \E s \in Slots, m \in Masses : Mom(s, <<m, fresh + 1>>) /\ fresh' = fresh + 1
  \/ /\ UNCHANGED fresh
     /\ \/ \E s \in Slots : \/ \E m \in Masses : Mass(s, m)
                            \/ Upd(s)
                            \/ \E c \in PQ(s) : Query(s, c)
                            \/ \E d \in Slots \ {s} : Copies /\ Assign(d, s)
        \/ \E l, r \in Slots, lu \in {"U", "L"}, k \in Inner : SNew(l, lu, IF k = 0 THEN <<>> ELSE <<k>>, r)
        \/ SUpd
        \/ \E j \in {<<>>, <<1>>, <<1, 1>>, <<2>>} : SV(j)

Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth

\* The product keeps one value per spin; spins behave alike, so one is modelled.
Faithful ==
  /\ last.want = "value" => last.got = "value" /\ last.v = last.now
  /\ last.want = "refuse" => last.got = "refuse"
\* Checked on every transition, so that the call just made need not be part of the state.
AlwaysFaithful == [][Faithful']_vars

\* Momenta matter only up to equality: number them in the order of their first appearance in
\* the state, and forget the versions, which matter only through Synced.
Ids(t) == IF t = <<>> THEN <<>> ELSE <<t[2][2]>>
SlotSeq == CHOOSE q \in [1 .. Cardinality(Slots) -> Slots] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
OfSlot(s) == <<part[s].p[2], drv[s][2][2]>> \o Ids(kept[s]["m0"]) \o Ids(kept[s]["m1"]) \o Ids(kept[s]["mat"])
RECURSIVE OfSlots(_)
OfSlots(k) == IF k > Len(SlotSeq) THEN <<>> ELSE OfSlot(SlotSeq[k]) \o OfSlots(k + 1)
AllIds == OfSlots(1) \o Ids(px.inner) \o (IF px.val = <<>> THEN <<>> ELSE Ids(px.val[1]) \o Ids(px.val[2]) \o Ids(px.val[3]))
First(q, x) == CHOOSE k \in DOMAIN q : q[k] = x /\ \A j \in 1 .. (k - 1) : q[j] # x
SymView ==
  LET ids == AllIds
      mass(t) == IF t = <<>> THEN <<>> ELSE <<t[1], t[2][1]>>
  IN <<[k \in DOMAIN ids |-> First(ids, ids[k])],
       [s \in Slots |-> <<part[s].st, part[s].m, part[s].p[1], mass(drv[s]), [q \in Quantities |-> mass(kept[s][q])]>>],
       Synced(part, prod[1]), [prod[1] EXCEPT !.seen = <<>>],
       px.made, px.lm, px.rm, mass(px.inner), [k \in DOMAIN px.val |-> mass(px.val[k])]>>
=============================================================================
