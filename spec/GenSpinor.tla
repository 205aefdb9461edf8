----------------------------- MODULE GenSpinor ------------------------------
(***************************************************************************)
(* Behaviours of SpinorMachine as scripts of calls.                        *)
(*                                                                         *)
(* A behaviour follows a plan: a sequence of kinds of step.  With MODE     *)
(* "all" every possible step of each kind is taken, so that TLC enumerates *)
(* all behaviours of the plan; with MODE "some" each behaviour 1..COUNT    *)
(* takes one step of each kind, chosen by the seed.  When a plan is        *)
(* finished its script is printed.  In the scripts masses and momenta      *)
(* appear as m:i and p:i:d; their numbers come from Points.                *)
(***************************************************************************)
EXTENDS SpinorMachine, CNum, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)          \* kinds of step, in order
All == IOEnv.MODE = "all"
Count == JsonDeserialize(IOEnv.COUNT)
Seed == IOEnv.SEED
MassSet == JsonDeserialize(IOEnv.MASSES)     \* masses in use
DirSet == JsonDeserialize(IOEnv.DIRS)        \* directions in use

VARIABLES tid, k, part, prod, hist
vars == <<tid, k, part, prod, hist>>

PSlots == 1 .. 8
SSlots == 1 .. 4

\* ---------------------------------------------------------------- texts
RECURSIVE Join(_)
Join(ts) == IF Len(ts) = 0 THEN "" ELSE " " \o ts[1] \o Join(Tail(ts))
N(i) == ToString(i)
M(m) == "m:" \o N(m)
P(p) == "p:" \o N(p[1]) \o ":" \o N(p[2])
Text(c) ==
  CASE c.op = "pnew" -> "pnew " \o N(c.s) \o " " \o M(c.m) \o " " \o P(c.p)
    [] c.op \in {"pnewm", "pmass"} -> c.op \o " " \o N(c.s) \o " " \o M(c.m)
    [] c.op \in {"pcopy", "passign", "scopy", "sassign"} -> c.op \o " " \o N(c.s) \o " " \o N(c.from)
    [] c.op = "pmom" -> "pmom " \o N(c.s) \o " " \o P(c.p)
    [] c.op \in {"pupd", "supd", "sfree"} -> c.op \o " " \o N(c.s)
    [] c.op = "pq" -> "pq " \o N(c.s) \o " " \o c.f \o Join(c.a)
    [] c.op = "snew" -> "snew " \o N(c.s) \o " " \o c.as \o " " \o N(c.l) \o " " \o c.lu \o " " \o N(Len(c.mid))
                          \o Join([i \in DOMAIN c.mid |-> N(c.mid[i])]) \o " " \o N(c.r) \o " " \o c.ru
    [] c.op = "sv" -> "sv " \o N(c.s) \o Join([i \in DOMAIN c.j |-> N(c.j[i])])

\* ---------------------------------------------------------------- choices
Key(x) == <<Seed, IOEnv.NAME, tid, k, x>>
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Nth(q, x) == q[RndInt(Key(x), Len(q))]
\* all elements, or one of them
Some(q, x) == IF All \/ Len(q) = 0 THEN q ELSE <<Nth(q, x)>>
Each(q, f(_)) == TLCEval([i \in DOMAIN q |-> f(q[i])])
FlatEach(q, f(_)) == TLCEval(Flat(TLCEval([i \in DOMAIN q |-> f(q[i])])))
One(c) == <<c>>

MomsOf(m) == LET all == [i \in DOMAIN DirSet |-> <<m, DirSet[i]>>] IN SelectSeq(all, LAMBDA p: p # <<0, 0>>)
OtherMasses(m) == SelectSeq(MassSet, LAMBDA x: x # m)

PMom(s, p) == [op |-> "pmom", s |-> s, p |-> p]
PMass(s, m) == [op |-> "pmass", s |-> s, m |-> m]
PUpd(s) == [op |-> "pupd", s |-> s]
PQ(s, f, a) == [op |-> "pq", s |-> s, f |-> f, a |-> a]

\* A step is a sequence of calls.
News(s) == FlatEach(Some(MassSet, <<"m", s>>), LAMBDA m: Each(Some(MomsOf(m), <<"d", s>>), LAMBDA p: <<[op |-> "pnew", s |-> s, m |-> m, p |-> p]>>))
Rests(s) == Each(Some(MassSet, <<"rest", s>>), LAMBDA m: <<[op |-> "pnewm", s |-> s, m |-> m]>>)

SpinorQ == <<"ra", "la", "rs", "ls">>
MatrixQ == <<"ram", "lam", "rsm", "lsm">>
PlainQ == <<"um", "lm", "mass", "get_mass", "mom", "angles">>
GenQ == <<"spin_j3_lu", "spin_jp_lu", "spin_jm_lu", "spin_j3_ul", "spin_jp_ul", "spin_jm_ul",
          "lorentz_j3_lu", "lorentz_jp_lu", "lorentz_jm_lu", "lorentz_j3_ul", "lorentz_jp_ul", "lorentz_jm_ul",
          "lorentz_j3_lu_dot", "lorentz_jp_lu_dot", "lorentz_jm_lu_dot", "lorentz_j3_ul_dot", "lorentz_jp_ul_dot", "lorentz_jm_ul_dot">>
SpinArgs == <<<<"-1">>, <<"1">>, <<"-1", "U">>, <<"1", "U">>, <<"-1", "L">>, <<"1", "L">>>>
BadSpinArgs == <<<<"0">>, <<"2">>, <<"-2">>, <<"3">>, <<"0", "U">>, <<"2", "L">>, <<"-3", "L">>, <<"-2", "U">>>>
With(s, fs, as) == FlatEach(fs, LAMBDA f: Each(as, LAMBDA a: <<PQ(s, f, a)>>))
MatArgs == <<<<>>, <<"U">>, <<"L">>>>

\* Queries a user may make, those that must be rejected, and generators.
MassiveQ(s) == With(s, SpinorQ, SpinArgs) \o With(s, MatrixQ, MatArgs)
MasslessQ(s) == With(s, SpinorQ, <<<<>>>>)
SpinorQueries(s) == IF part[s].m = 0 THEN MasslessQ(s) ELSE MassiveQ(s)
Others(s) == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8>>, LAMBDA t: part[t].st # "none" /\ part[t].st # "refused")
Dots(s) == IF part[s].st = "refused" THEN <<>> ELSE Each(Some(Others(s), "dot"), LAMBDA t: <<PQ(s, "dot", <<N(t)>>)>>)
Queries(s) == SpinorQueries(s) \o With(s, PlainQ, <<<<>>>>) \o Dots(s)
WrongForm(s) == IF part[s].m = 0 THEN MassiveQ(s) ELSE MasslessQ(s)
BadQueries(s) == WrongForm(s) \o With(s, SpinorQ, BadSpinArgs)

\* Off-shell momenta: on the mass shell of another mass, or (99) with a part that is not a number.
NoMoms == <<<<99, 1>>, <<99, 2>>, <<99, 3>>, <<99, 4>>, <<99, 5>>>>
OffMoms(s) == FlatEach(Some(OtherMasses(part[s].m) \o <<99>>, <<"off", s>>), LAMBDA m: Some(IF m = 99 THEN NoMoms ELSE MomsOf(m), <<"offd", s>>))
NewMoms(s) == SelectSeq(MomsOf(part[s].m), LAMBDA p: p # part[s].p)

\* Momenta of the same energy that differ in direction, many by signs or a turn about an axis.
Group(d) == IF d \in 1 .. 6 THEN 1 ELSE IF d \in 7 .. 18 THEN 2 ELSE IF d \in 19 .. 26 THEN 3 ELSE d
TurnedMoms(s) == SelectSeq(NewMoms(s), LAMBDA p: Group(p[2]) = Group(part[s].p[2]))

\* Ways to change a particle that leave it fresh.
Turn(s) == Each(Some(TurnedMoms(s), <<"turn", s>>), LAMBDA p: <<PMom(s, p)>>)
\* The same three-momentum with another mass.
SameSpace(s) ==
  LET d == part[s].p[2] IN
  Each(Some(SelectSeq(OtherMasses(part[s].m), LAMBDA m: <<m, d>> # <<0, 0>>), <<"ss", s>>), LAMBDA m: <<PMass(s, m), PMom(s, <<m, d>>)>>)
Move(s) == Each(Some(NewMoms(s), <<"move", s>>), LAMBDA p: <<PMom(s, p)>>)
MassAndMove(s) == FlatEach(Some(OtherMasses(part[s].m), <<"mm", s>>), LAMBDA m: Each(Some(MomsOf(m), <<"mv", s>>), LAMBDA p: <<PMass(s, m), PMom(s, p)>>))
SameMassUpdate(s) == <<<<PMass(s, part[s].m), PUpd(s)>>>>
\* set_mass to a wrong mass and back
MassThereAndBack(s) == Each(Some(OtherMasses(part[s].m), <<"tb", s>>), LAMBDA m: <<PMass(s, m), PQ(s, "lm", <<>>), PMass(s, part[s].m), PUpd(s)>>)
RefusedThenMoved(s) == FlatEach(Some(OffMoms(s), <<"rf", s>>), LAMBDA o: Each(Some(NewMoms(s), <<"rm", s>>), LAMBDA p: <<PMom(s, o), PMom(s, p)>>))
MassRefusedThenMoved(s) == FlatEach(Some(OtherMasses(part[s].m), <<"mr", s>>), LAMBDA m: Each(Some(MomsOf(m), <<"mq", s>>), LAMBDA p: <<PMass(s, m), PUpd(s), PMom(s, p)>>))
Sources(s) == SelectSeq(Others(s), LAMBDA t: t # s /\ part[t].st = "fresh")
Copied(s) == Each(Some(Sources(s), <<"cp", s>>), LAMBDA t: <<[op |-> "passign", s |-> s, from |-> t]>>)
Built(s) == News(s)
Changes(s) == Move(s) \o Turn(s) \o SameSpace(s) \o MassAndMove(s) \o SameMassUpdate(s) \o MassThereAndBack(s) \o RefusedThenMoved(s) \o MassRefusedThenMoved(s) \o Copied(s)
\* One of each way, each with its own choice of numbers.
OneWay(s) == LET ways == SelectSeq(<<Move(s), Turn(s), Turn(s), SameSpace(s), MassAndMove(s), SameMassUpdate(s), MassThereAndBack(s), RefusedThenMoved(s), MassRefusedThenMoved(s), Copied(s), Built(s)>>, LAMBDA w: Len(w) # 0)
             IN [i \in DOMAIN ways |-> Nth(ways[i], <<"way", i>>)]
\* Rejected changes.
BadChanges(s) ==
  FlatEach(Some(OffMoms(s), <<"b", s>>), LAMBDA p: <<<<PMom(s, p)>>, <<[op |-> "pnew", s |-> s, m |-> part[s].m, p |-> p]>>>>)
  \o Each(Some(OtherMasses(part[s].m), <<"bm", s>>), LAMBDA m: <<PMass(s, m), PUpd(s)>>)
Recover(s) == IF part[s].st = "fresh" THEN <<<<>>>> ELSE Each(Some(MomsOf(part[s].m), <<"rec", s>>), LAMBDA p: <<PMom(s, p)>>)

\* ------------------------------------------------------------- products
Ups == <<"-", "U", "L">>
Legal(c) == Outcome(part, prod, c) = "value"
SNewC(s, as, l, lu, mid, r, ru) == [op |-> "snew", s |-> s, as |-> as, l |-> l, lu |-> lu, mid |-> mid, r |-> r, ru |-> ru]
Mids(n, x) == [i \in 1 .. n |-> RndInt(Key(<<"mid", x, i>>), 6)]
AllForms(s) ==
  FlatEach(Some(<<"A", "S">>, "as"), LAMBDA as: FlatEach(Some(<<0, 1, 2, 3, 4, 5, 6>>, "n"), LAMBDA n:
  FlatEach(Some(<<1, 3, 2, 4>>, "l"), LAMBDA l: FlatEach(Some(<<2, 4, 1, 3>>, "r"), LAMBDA r:
  FlatEach(Some(Ups, "lu"), LAMBDA lu: Each(Some(Ups, "ru"), LAMBDA ru: <<SNewC(s, as, l, lu, Mids(n, <<as, n, l, r, lu, ru>>), r, ru)>>))))))
LegalForms(s) == SelectSeq(AllForms(s), LAMBDA st: Legal(st[1]))
AnyLegal(s) ==
  LET l == RndInt(Key(<<"l", s>>), 6)
      r == RndInt(Key(<<"r", s>>), 6)
      n == Nth(<<0, 1, 1, 2, 2, 3, 4, 5, 6>>, <<"n", s>>)
      up(t, x) == IF part[t].m = 0 THEN Nth(<<"-", "U">>, x) ELSE Nth(Ups, x)
  IN <<SNewC(s, Nth(<<"A", "S">>, <<"as", s>>), l, up(l, <<"lu", s>>), Mids(n, s), r, up(r, <<"ru", s>>))>>

Spins1 == <<<<-1>>, <<1>>>>
Spins2 == <<<<-1, -1>>, <<-1, 1>>, <<1, -1>>, <<1, 1>>>>
BadLabels(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<<<0>>, <<2>>, <<-2>>, <<3>>>> ELSE <<<<0, 1>>, <<1, 2>>, <<-2, -1>>, <<-1, 0>>, <<2, 2>>, <<3, -1>>>>
Given(n) == IF n = 0 THEN <<<<>>>> ELSE IF n = 1 THEN Spins1 ELSE Spins2
SV(s, j) == [op |-> "sv", s |-> s, j |-> j]
ArityOf(s) == Arity(part, prod[s])
ProdQueries(s) == Each(Given(ArityOf(s)), LAMBDA j: <<SV(s, j)>>)
BadProdQueries(s) == Each(FlatEach(SelectSeq(<<0, 1, 2>>, LAMBDA n: n # ArityOf(s)), LAMBDA n: Given(n)) \o BadLabels(ArityOf(s)), LAMBDA j: <<SV(s, j)>>)
SUpd(s) == [op |-> "supd", s |-> s]
\* All values of a product, in one step.
Probe(s) == <<Flat(ProdQueries(s))>>
Known(s) == prod[s].l # 0
Touch(s) == SelectSeq(<<1, 2, 3, 4, 5, 6>>, LAMBDA t: t \in Members(prod[s]))

\* Products that can be copied, and the copies of one to slot s.
Copyable == SelectSeq(<<1, 2, 3, 4>>, LAMBDA x: prod[x].ok)
CopyTo(s, from) == <<<<[op |-> "scopy", s |-> s, from |-> from]>>, <<[op |-> "sassign", s |-> s, from |-> from]>>>>
CopiesTo(s) == FlatEach(Some(Copyable, <<"from", s>>), LAMBDA from: CopyTo(s, from))

\* ------------------------------------------------------------- the plan
\* One step of a random history over all slots.
AnyStep ==
  LET s == RndInt(Key("slot"), 6)
      x == RndInt(Key("prod"), 4)
      pick(q, w) == IF Len(q) = 0 THEN <<<<>>>> ELSE <<Nth(q, w)>>
      what == Nth(<<"query", "query", "query", "bad", "change", "change", "way", "badchange", "mass", "gen", "prod", "probe", "v", "v", "badv", "upd", "updall", "updall">>, "what")
  IN CASE part[s].st = "refused" /\ what \in {"query", "change", "way", "mass", "bad", "badchange", "gen"} -> pick(Recover(s), "rec")
       [] what = "query" -> pick(Queries(s), "q")
       [] what = "bad" -> pick(BadQueries(s), "bq")
       [] what = "gen" -> pick(With(s, GenQ, <<<<>>>>), "g")
       [] what = "change" -> pick(Changes(s), "c")
       [] what = "way" -> pick(OneWay(s), "w")
       [] what = "badchange" -> pick(BadChanges(s), "bc")
       [] what = "mass" -> <<<<PMass(s, Nth(MassSet, "ms"))>>>>
       [] what = "prod" -> <<AnyLegal(x)>>
       [] ~Known(x) -> <<AnyLegal(x)>>
       [] what = "probe" -> IF prod[x].ok THEN <<<<SUpd(x)>> \o Probe(x)[1]>> ELSE <<<<SUpd(x)>>>>
       [] what = "v" -> IF prod[x].ok THEN pick(ProdQueries(x), "v") ELSE <<<<>>>>
       [] what = "badv" -> IF prod[x].ok THEN pick(BadProdQueries(x), "bv") ELSE <<<<>>>>
       [] what = "upd" -> <<<<SUpd(x)>>>>
       [] OTHER -> <<Flat([y \in 1 .. 4 |-> IF Known(y) THEN <<SUpd(y)>> ELSE <<>>])>>

\* The steps of one kind that are possible now.
Steps(kind) ==
  CASE kind = "new1" -> News(1)
    [] kind = "new2" -> News(2)
    [] kind = "make1" -> News(1) \o Rests(1)
    [] kind = "rest1" -> Rests(1)
    [] kind = "query1" -> Queries(1)
    [] kind = "allspinors1" -> <<Flat(SpinorQueries(1))>>
    [] kind = "allplain1" -> <<Flat(With(1, PlainQ, <<<<>>>>) \o Each(Others(1), LAMBDA t: <<PQ(1, "dot", <<N(t)>>)>>))>>
    [] kind = "every1" -> <<Flat(Queries(1))>>
    [] kind = "gens1" -> <<Flat(With(1, GenQ, <<<<>>>>))>>
    [] kind = "spinors1" -> SpinorQueries(1)
    [] kind = "way1" -> OneWay(1)
    [] kind = "change1" -> Changes(1)
    [] kind = "bad1" -> BadQueries(1)
    [] kind = "badchange1" -> BadChanges(1)
    [] kind = "recover1" -> Recover(1)
    [] kind = "both" ->     \* particles 1 and 2 of all masses with different momenta
         FlatEach(MassSet, LAMBDA m: Each(MassSet, LAMBDA n:
           <<[op |-> "pnew", s |-> 2, m |-> n, p |-> <<n, DirSet[2]>>], [op |-> "pnew", s |-> 1, m |-> m, p |-> <<m, DirSet[1]>>]>>))
    [] kind = "cast" ->     \* two massless, two massive, two arbitrary particles
         <<Flat([s \in 1 .. 6 |->
             LET m == IF s \in {1, 2} THEN 0 ELSE IF s \in {3, 4} THEN Nth(OtherMasses(0), <<"cm", s>>) ELSE Nth(MassSet, <<"cm", s>>)
             IN <<[op |-> "pnew", s |-> s, m |-> m, p |-> Nth(MomsOf(m), <<"cd", s>>)]>>])>>
    [] kind = "form1" -> AllForms(1)
    [] kind = "legal1" -> IF All THEN LegalForms(1) ELSE <<AnyLegal(1)>>
    [] kind = "probe1" -> IF prod[1].ok THEN Probe(1) ELSE <<<<>>>>
    [] kind = "badv1" -> IF prod[1].ok THEN BadProdQueries(1) ELSE <<<<>>>>
    [] kind = "v1" -> IF prod[1].ok THEN ProdQueries(1) ELSE <<<<>>>>
    [] kind = "touch1" -> IF Known(1) THEN FlatEach(Touch(1), LAMBDA t: OneWay(t)) ELSE <<<<>>>>
    [] kind = "upd1" -> IF Known(1) THEN <<<<SUpd(1)>>>> ELSE <<<<>>>>
    [] kind = "any" -> AnyStep
    [] kind = "legal2" -> <<AnyLegal(2)>>
    [] kind = "copy2" -> IF prod[1].ok THEN CopyTo(2, 1) ELSE <<<<>>>>
    [] kind = "back1" -> IF prod[2].ok THEN CopyTo(1, 2) ELSE <<<<>>>>
    [] kind = "self1" -> IF prod[1].ok THEN <<<<[op |-> "sassign", s |-> 1, from |-> 1]>>>> ELSE <<<<>>>>
    [] kind = "free1" -> IF Known(1) THEN <<<<[op |-> "sfree", s |-> 1]>>>> ELSE <<<<>>>>
    [] kind = "probe2" -> IF prod[2].ok THEN Probe(2) ELSE <<<<>>>>
    [] kind = "v2" -> IF prod[2].ok THEN ProdQueries(2) ELSE <<<<>>>>
    [] kind = "touch2" -> IF Known(2) THEN FlatEach(Touch(2), LAMBDA t: OneWay(t)) ELSE <<<<>>>>
    [] kind = "upd2" -> IF Known(2) THEN <<<<SUpd(2)>>>> ELSE <<<<>>>>
    [] kind = "anycopy" -> LET x == RndInt(Key("to"), 4)
                               c == CopiesTo(x)
                           IN IF RndInt(Key("copy"), 4) = 1 /\ Len(c) # 0 THEN <<Nth(c, "which")>> ELSE AnyStep
\* A product with a particle that is not fresh must not be updated or built: its outcome is not
\* specified and the code may keep the particle's old momentum.
Usable(c) ==
  CASE c.op = "snew" -> AllFresh(part, Members(c))
    [] c.op = "supd" -> AllFresh(part, Members(prod[c.s]))
    [] c.op = "sv" -> prod[c.s].ok
    [] OTHER -> TRUE

RECURSIVE RunPart(_, _, _)
RunPart(pt, pr, cs) ==
  IF Len(cs) = 0 THEN [part |-> pt, prod |-> pr]
  ELSE RunPart(AfterPart(pt, cs[1]), AfterProd(pt, pr, cs[1]), Tail(cs))
UsableStep(cs) == \A i \in DOMAIN cs : cs[i].op \in {"snew", "supd", "sv"} => Usable(cs[i])

Kinds(i) == Plan[i]
Init ==
  /\ tid \in (IF All THEN {1} ELSE 1 .. Count)
  /\ k = 1
  /\ part = [s \in PSlots |-> NoPart]
  /\ prod = [s \in SSlots |-> NoProd]
  /\ hist = "reset"

RECURSIVE JoinCalls(_)
JoinCalls(cs) == IF Len(cs) = 0 THEN "" ELSE ";" \o Text(cs[1]) \o JoinCalls(Tail(cs))
Take(cs) ==
  LET use == IF UsableStep(cs) THEN cs ELSE SelectSeq(cs, LAMBDA c: Usable(c))
      r == RunPart(part, prod, use)
  IN /\ part' = r.part /\ prod' = r.prod
     /\ k' = k + 1
     /\ hist' = hist \o JoinCalls(use)
     /\ tid' = tid
     /\ k = Len(Plan) => PrintT("SCRIPT " \o hist')

Next == /\ k <= Len(Plan)
        /\ LET steps == TLCEval(Steps(Kinds(k))) IN
           IF All THEN \E i \in DOMAIN steps : Take(steps[i])
           ELSE IF Len(steps) = 0 THEN Take(<<>>) ELSE Take(Nth(steps, "step"))
Spec == Init /\ [][Next]_vars
=============================================================================
