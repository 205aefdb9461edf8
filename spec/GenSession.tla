----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* Generator of sessions with process objects: constructions, changes of   *)
(* masses and of the vacuum expectation value, valid and refused momenta,  *)
(* and requests for amplitudes and squares in any order, on one or several *)
(* objects.  A plan is a sequence of step kinds; "1" steps act on object 1 *)
(* whose class is given by the behaviour, "any" steps on any object.  Words *)
(* after the kind of a step say in which regime of masses, energies and    *)
(* angles it chooses.  A step "walk" is any of the kinds after it: TLC     *)
(* takes them all, so that all histories of that shape are generated.      *)
(***************************************************************************)
EXTENDS SMLaws, Json, IOUtils

Mine == TLCEval(JsonDeserialize(IOEnv.CLASSES))
Plan == TLCEval(JsonDeserialize(IOEnv.PLAN))
Count == TLCEval(JsonDeserialize(IOEnv.COUNT))
Seed == IOEnv.SEED

VARIABLES tid, k, obj, hist
vars == <<tid, k, obj, hist>>

\* The kind of the present step and its regime.
Kind == Plan[k][1]
How == IF Kind = "walk" THEN {} ELSE {Plan[k][i] : i \in DOMAIN Plan[k]} \ {Kind}
Kinds == IF Kind = "walk" THEN {Plan[k][i] : i \in DOMAIN Plan[k]} \ {Kind} ELSE {Kind}
Key(x) == <<Seed, IOEnv.NAME, tid, k, x>>
Nth(q, x) == q[RndInt(Key(x), Len(q))]
N(i) == ToString(i)
RECURSIVE Words(_)
Words(q) == IF Len(q) = 0 THEN "" ELSE " " \o q[1] \o Words(Tail(q))
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

\* ------------------------------------------------------------------ state
\* An object: its class, its parameters (texts), whether its momenta are accepted, and the
\* momenta in the scattering frame the steps about laws come back to; also the call that gave
\* it its momenta.
NoObj == [cls |-> "", q |-> <<>>, on |-> FALSE, base |-> <<>>, last |-> ""]
NewObj(cls, q) == [cls |-> cls, q |-> q, on |-> FALSE, base |-> <<>>, last |-> ""]
Known(o) == obj[o].cls # ""
Slots == {1, 2, 3}

\* -------------------------------------------------------------- momenta
Frame(x) == IF "tilted" \in How THEN Nth(<<8, 9>>, <<x, "frame">>) ELSE IF "fast" \in How THEN Nth(<<10, 11>>, <<x, "frame">>) ELSE Nth(<<4, 4, 4, 1, 2, 3, 5, 6, 7>>, <<x, "frame">>)
MomFor(legs, x) == TLCEval(InFrame(Frame(x), PointIn(How, legs, Key(x)), Key(x)))
Legs(o, q) == TLCEval(LegsOf(obj[o].cls, Values(q)))
OnMom(o, q, x) == "mom " \o N(o) \o Words(MomText(MomFor(Legs(o, q), x)))
\* One external particle is off its mass shell: the energies are those of other masses.
OffMom(o, x) ==
  LET legs == Legs(o, obj[o].q)
      i == RndInt(Key(<<x, "leg">>), 4)
      wrong == TLCEval([j \in DOMAIN legs |-> IF j = i THEN Num(legs[j]) + Between(1, 9, Key(<<x, "dm">>)) ELSE legs[j]])
  IN "mom " \o N(o) \o Words(MomText(MomFor(wrong, x)))

\* -------------------------------------------------------------- requests
AmpCalls(o) ==
  LET sig == Sig(obj[o].cls)
      ofAmp(a) == LET ds == Product(a.args) IN [j \in DOMAIN ds |-> "amp " \o N(o) \o " " \o a.f \o Words([i \in DOMAIN ds[j] |-> N(ds[j][i])])]
  IN Flat([j \in DOMAIN sig.amps |-> ofAmp(sig.amps[j])])
SquareCalls(o) == LET sig == Sig(obj[o].cls) IN [j \in DOMAIN sig.squares |-> "amp2 " \o N(o) \o " " \o sig.squares[j]]
Requests(o) == TLCEval(AmpCalls(o) \o SquareCalls(o))
\* Everything there is to ask, starting anywhere, forwards or backwards.
Turned(q, x) == LET n == Len(q)
                    s == RndInt(Key(<<x, "start">>), n)
                    back == RndInt(Key(<<x, "dir">>), 2) = 1
                IN [i \in Range(1, n) |-> IF back THEN q[n - IntMod(s + i, n)] ELSE q[1 + IntMod(s + i, n)]]
Sweep(o) == Turned(Requests(o), <<"sweep", o>>)
Few(o, n) == LET q == Requests(o) IN [i \in Range(1, n) |-> Nth(q, <<"few", o, i>>)]
Square(o) == <<SquareCalls(o)[1]>>

\* ---------------------------------------------------------------- changes
Fresh(o, names, x) == LET p == TLCEval(ParamIn(How, obj[o].cls, Key(x))) IN [n \in {names[i] : i \in DOMAIN names} |-> p[n]]
Over(q, r) == IF DOMAIN r = {} THEN q ELSE r @@ q
SetM(o, q) == "setm " \o N(o) \o Words(InOrder(Sig(obj[o].cls).setm, q))
\* A step: the calls, and the object afterwards.
Step(calls, o, x) == [calls |-> calls, o |-> o, obj |-> x]
Same(calls, o) == Step(calls, o, obj[o])

New(o, cls) ==
  LET q == TLCEval(ParamIn(How, cls, Key(<<"new", o>>)))
  IN Step(<<"new " \o N(o) \o " " \o cls \o Words(InOrder(Sig(cls).ctor, q))>>, o, NewObj(cls, q))
\* The same without widths.
NewNarrow(o, cls) ==
  LET q == TLCEval(ParamIn(How \cup {"narrow"}, cls, Key(<<"new", o>>)))
  IN Step(<<"new " \o N(o) \o " " \o cls \o Words(InOrder(Sig(cls).ctor, q))>>, o, NewObj(cls, q))
\* An object like another but for one parameter, at the same momenta if these suit it.
Twin(o, of) ==
  LET cls == obj[of].cls
      one == Nth(Sig(cls).ctor, <<"twin", o>>)
      p == TLCEval(ParamIn(How, cls, Key(<<"twinp", o>>)))
      q == TLCEval([n \in {one} |-> p[n]] @@ obj[of].q)
      same == TLCEval(LegsOf(cls, Values(q))) = TLCEval(LegsOf(cls, Values(obj[of].q)))
      c == IF same THEN "mom " \o N(o) \o SubSeq(obj[of].last, 6, Len(obj[of].last)) ELSE TLCEval("mom " \o N(o) \o Words(MomText(MomFor(LegsOf(cls, Values(q)), <<"twinm", o>>))))
  IN Step(<<"new " \o N(o) \o " " \o cls \o Words(InOrder(Sig(cls).ctor, q)), c>>, o, [cls |-> cls, q |-> q, on |-> TRUE, base |-> <<>>, last |-> c])
AcceptAfter(calls, o, q) ==
  LET c == TLCEval(OnMom(o, q, <<"on", o>>))
  IN Step(calls \o <<c>>, o, [obj[o] EXCEPT !.q = q, !.on = TRUE, !.last = c])
Accept(o) == AcceptAfter(<<>>, o, obj[o].q)
Refuse(o) == Step(<<OffMom(o, <<"off", o>>)>>, o, [obj[o] EXCEPT !.on = FALSE])
RefuseAccept(o) == AcceptAfter(<<OffMom(o, <<"off", o>>)>>, o, obj[o].q)
\* Refused momenta, then the ones accepted last.
RefuseAgain(o) == IF ~obj[o].on THEN RefuseAccept(o) ELSE Same(<<OffMom(o, <<"off", o>>), obj[o].last>>, o)
Masses(o) ==
  LET names == Sig(obj[o].cls).setm
      q == TLCEval(Over(obj[o].q, Fresh(o, names, <<"setm", o>>)))
  IN IF Len(names) = 0 THEN Accept(o)
     ELSE AcceptAfter(<<SetM(o, q)>>, o, q)
\* Only one of the masses changes.
OneMass(o) ==
  LET names == Sig(obj[o].cls).setm
      one == Nth(names, <<"one", o>>)
      q == TLCEval(Over(obj[o].q, Fresh(o, <<one>>, <<"onem", o>>)))
  IN IF Len(names) = 0 THEN Accept(o)
     ELSE AcceptAfter(<<SetM(o, q)>>, o, q)
SameMasses(o) ==
  IF Len(Sig(obj[o].cls).setm) = 0 THEN Accept(o)
  ELSE AcceptAfter(<<SetM(o, obj[o].q)>>, o, obj[o].q)
\* Masses set twice before momenta follow.
MassesTwice(o) ==
  LET names == Sig(obj[o].cls).setm
      q1 == TLCEval(Over(obj[o].q, Fresh(o, names, <<"setm1", o>>)))
      q2 == TLCEval(Over(obj[o].q, Fresh(o, names, <<"setm2", o>>)))
  IN IF Len(names) = 0 THEN Accept(o)
     ELSE AcceptAfter(<<SetM(o, q1), SetM(o, q2)>>, o, q2)
\* New masses, then momenta of the old masses, which must be refused, then right ones.
MassesOldMomenta(o) ==
  LET names == Sig(obj[o].cls).setm
      q == TLCEval(Over(obj[o].q, Fresh(o, names, <<"setmo", o>>)))
  IN IF Len(names) = 0 THEN Accept(o)
     ELSE AcceptAfter(<<SetM(o, q), OnMom(o, obj[o].q, <<"old", o>>)>>, o, q)
\* Momenta of new masses, refused, then the new masses and the same momenta.
EarlyMomenta(o) ==
  LET names == Sig(obj[o].cls).setm
      q == TLCEval(Over(obj[o].q, Fresh(o, names, <<"setme", o>>)))
      c == TLCEval(OnMom(o, q, <<"early", o>>))
  IN IF Len(names) = 0 THEN Accept(o)
     ELSE Step(<<c, SetM(o, q), c>>, o, [obj[o] EXCEPT !.q = q, !.on = TRUE, !.last = c])
\* Momenta given before, after others in between.
BackAgain(o) ==
  IF ~obj[o].on THEN Accept(o)
  ELSE Same(<<OnMom(o, obj[o].q, <<"else", o>>)>> \o (IF RndInt(Key(<<"elseq", o>>), 2) = 1 THEN <<>> ELSE Square(o)) \o <<obj[o].last>>, o)
\* New masses of particles that are not outside, then the same momenta again.
InnerMasses(o) ==
  LET names == Sig(obj[o].cls).setm
      p == TLCEval(Fresh(o, names, <<"inner", o>>))
      with(n) == TLCEval(Over(obj[o].q, [x \in {n} |-> p[x]]))
      inner == SelectSeq(names, LAMBDA n: TLCEval(Legs(o, with(n))) = TLCEval(Legs(o, obj[o].q)))
      one == Nth(inner, <<"innerone", o>>)
      q == IF RndInt(Key(<<"innerall", o>>), 3) = 1 THEN TLCEval(Over(obj[o].q, [n \in {inner[i] : i \in DOMAIN inner} |-> p[n]])) ELSE with(one)
  IN IF Len(inner) = 0 \/ ~obj[o].on THEN Accept(o)
     ELSE Step(<<SetM(o, q), obj[o].last>>, o, [obj[o] EXCEPT !.q = q])
\* Other masses, requests, then the old masses and the same momenta as before.
Excursion(o) ==
  LET names == Sig(obj[o].cls).setm
      q == TLCEval(Over(obj[o].q, Fresh(o, names, <<"exc", o>>)))
      between == IF RndInt(Key(<<"excm", o>>), 2) = 1 THEN <<>> ELSE <<OnMom(o, q, <<"excon", o>>), SquareCalls(o)[1]>>
  IN IF Len(names) = 0 \/ ~obj[o].on THEN Accept(o)
     ELSE Step(<<SetM(o, q)>> \o between \o <<SetM(o, obj[o].q), obj[o].last>>, o, obj[o])
\* The same momenta once more.
Again(o) == IF obj[o].on THEN Same(<<obj[o].last>>, o) ELSE Accept(o)
NewVev(o) ==
  IF ~Sig(obj[o].cls).setv THEN Accept(o)
  ELSE LET v == Dec(Between(150, 300, Key(<<"vev", o>>)), 9)
           q == TLCEval([n \in {"vev"} |-> v] @@ obj[o].q)
       IN IF obj[o].on /\ RndInt(Key(<<"vevagain", o>>), 2) = 1
          THEN Step(<<"setv " \o N(o) \o " " \o v, obj[o].last>>, o, [obj[o] EXCEPT !.q = q])
          ELSE AcceptAfter(<<"setv " \o N(o) \o " " \o v>>, o, q)
At(o) ==
  IF ~Sig(obj[o].cls).at THEN Accept(o)
  ELSE AcceptAfter(<<"amp2at " \o N(o) \o Words(MomText(MomFor(Legs(o, obj[o].q), <<"at", o>>)))>>, o, obj[o].q)
\* Momenta in the scattering frame, turned; the same invariants elsewhere; exchanged momenta.
Text(o, mom) == "mom " \o N(o) \o Words(MomText(TLCEval(mom)))
Base(o) ==
  LET mom == TLCEval(PointIn(How, Legs(o, obj[o].q), Key(<<"base", o>>)))
      c == Text(o, InFrame(Nth(<<1, 2, 5, 6>>, <<"bf", o>>), mom, Key(<<"base", o>>)))
  IN Step(<<c>>, o, [obj[o] EXCEPT !.on = TRUE, !.base = mom, !.last = c])
MovedFrames == IF "tilted" \in How THEN <<8, 9>> ELSE IF "fast" \in How THEN <<10, 11>> ELSE <<2, 3, 4, 7>>
Moved(o, mom) == LET c == Text(o, InFrame(Nth(MovedFrames, <<"mf", o>>), mom, Key(<<"moved", o>>))) IN Step(<<c>>, o, [obj[o] EXCEPT !.last = c])
Swapped(o, in, out) ==
  LET b == obj[o].base
      x == IF in THEN <<b[2], b[1]>> ELSE <<b[1], b[2]>>
      y == IF out THEN <<b[4], b[3]>> ELSE <<b[3], b[4]>>
  IN Moved(o, x \o y)
\* Resonances: light external fermions, and the energy at the mass of a particle whose width
\* the class takes, where that is above threshold.
LightText(cls, x) ==
  LET p == TLCEval(ParamIn(How, cls, Key(x)))
      light == {"masse", "massmu", "masstau", "massu", "massd", "masss", "massc", "massb", "masst", "massf"}
  IN TLCEval([n \in DOMAIN p |-> IF n \in light THEN Dec(Num(p[n]) * Num("0.1"), 9) ELSE p[n]])
Light(o, cls) ==
  LET q == LightText(cls, <<"light", o>>)
  IN Step(<<"new " \o N(o) \o " " \o cls \o Words(InOrder(Sig(cls).ctor, q))>>, o, NewObj(cls, q))
Resonances(q) ==
  LET v == Values(q)
      all == <<"widthZ", "widthW", "widthh">>
      have == SelectSeq(all, LAMBDA n: n \in DOMAIN q)
      mass(n) == CASE n = "widthW" -> v.massW [] n = "widthh" -> v.massh [] n = "widthZ" -> v.massW / Sqrt(1 - v.sinW * v.sinW)
  IN [j \in DOMAIN have |-> mass(have[j])]
AtResonance(o, q, j) ==
  LET rs == TLCEval(Resonances(q))
      legs == Legs(o, q)
      \* off the peak by a fraction of a per cent, or exactly on it
      m == IF Len(rs) = 0 THEN 0 ELSE rs[1 + IntMod(j, Len(rs))] * Nth(<<1, Num("1.004"), Num("0.993"), Num("1.02")>>, <<"peak", o, j>>)
      cm == IF Less(Threshold(legs) * Num("1.001"), m) THEN TwoToTwo(legs, m * m, RandomCos(Key(<<"res", o, j>>))) ELSE Point(legs, Key(<<"res", o, j>>))
  IN "mom " \o N(o) \o Words(MomText(TLCEval(InFrame(Frame(<<"rf", o, j>>), TLCEval(cm), Key(<<"rf", o, j>>)))))
Resonate(o, j) == LET c == AtResonance(o, obj[o].q, j) IN Step(<<c>>, o, [obj[o] EXCEPT !.on = TRUE, !.last = c])
LightMasses(o) ==
  LET names == Sig(obj[o].cls).setm
      p == LightText(obj[o].cls, <<"lightm", o>>)
      q == TLCEval(Over(obj[o].q, [n \in {names[i] : i \in DOMAIN names} |-> p[n]]))
  IN IF Len(names) = 0 THEN Resonate(o, 1)
     ELSE LET c == AtResonance(o, q, 1) IN Step(<<SetM(o, q), c>>, o, [obj[o] EXCEPT !.q = q, !.on = TRUE, !.last = c])
\* All processes of a family at the same masses and invariants, with couplings of their own.
InOrderOf(order, mom) == [j \in {1, 2, 3, 4} |-> mom[CHOOSE i \in {1, 2, 3, 4} : order[i] = j]]
FamilyParams(cls, fam) ==
  LET own == TLCEval(ParamText(cls, Key(<<"own", cls>>)))
      shared(n) == IF n \in {"masse", "massd", "massu"} /\ fam # "AWud" THEN Dec(Between(5, 45, Key("massf")), 9)
                   ELSE Dec(Between(ParamRange(n)[1], ParamRange(n)[2], Key(<<"shared", n>>)), 9)
  IN [n \in DOMAIN own |-> IF n \in ScaledAway(fam) THEN own[n] ELSE IF n \in {"widthW", "widthZ", "widthh"} THEN "0" ELSE shared(n)]
FamilyCalls(fam) ==
  LET cs == Families[fam]
      q1 == TLCEval(FamilyParams(cs[1], fam))
      f1 == Family(cs[1], Values(q1))
      legs1 == LegsOf(cs[1], Values(q1))
      base == TLCEval(Point([i \in {1, 2, 3, 4} |-> legs1[f1.order[i]]], Key("fambase")))
      one(j) == LET q == TLCEval(FamilyParams(cs[j], fam))
                    mom == TLCEval(InOrderOf(Family(cs[j], Values(q)).order, base))
                IN <<"new 1 " \o cs[j] \o Words(InOrder(Sig(cs[j]).ctor, q)),
                     "mom 1" \o Words(MomText(TLCEval(InFrame(Nth(<<1, 2, 3, 4>>, <<"ff", j>>), mom, Key(<<"ff", j>>))))),
                     "amp2 1 amp2">>
  IN Flat([j \in DOMAIN cs |-> one(j)])
Free(o) == Step(<<"free " \o N(o)>>, o, NoObj)

\* A random step on any of three objects.
AnyStep ==
  LET o == RndInt(Key("slot"), 3)
      what == Nth(<<"few", "few", "few", "square", "accept", "accept", "masses", "one", "refuse", "refuse", "same", "vev", "free", "twice", "again", "inner", "excursion", "reagain", "early", "early", "back">>, "what")
  IN IF ~Known(o) THEN New(o, Nth(Mine, "cls"))
     ELSE CASE what \in {"few", "square"} /\ ~obj[o].on -> Accept(o)
            [] what = "few" -> Same(Few(o, RndInt(Key("nfew"), 5)), o)
            [] what = "square" -> Same(Square(o), o)
            [] what = "accept" -> Accept(o)
            [] what = "masses" -> Masses(o)
            [] what = "one" -> OneMass(o)
            [] what = "twice" -> MassesTwice(o)
            [] what = "refuse" -> Refuse(o)
            [] what = "same" -> SameMasses(o)
            [] what = "vev" -> NewVev(o)
            [] what = "free" -> Free(o)
            [] what = "again" -> Again(o)
            [] what = "inner" -> InnerMasses(o)
            [] what = "excursion" -> Excursion(o)
            [] what = "reagain" -> RefuseAgain(o)
            [] what = "early" -> EarlyMomenta(o)
            [] what = "back" -> BackAgain(o)

ClassOf(o) == Mine[1 + IntMod(tid + o - 2, Len(Mine))]
Do(kind) ==
  CASE kind = "new1" -> New(1, ClassOf(1))
    [] kind = "narrow1" -> NewNarrow(1, ClassOf(1))
    [] kind = "new2" -> New(2, ClassOf(1))      \* a second object of the same class
    [] kind = "twin2" -> Twin(2, 1)             \* one that differs in a single parameter
    [] kind = "new3" -> New(3, ClassOf(2))      \* one of another class
    [] kind = "mom1" -> Accept(1) [] kind = "mom2" -> Accept(2) [] kind = "mom3" -> Accept(3)
    [] kind = "sweep1" -> Same(Sweep(1), 1) [] kind = "sweep2" -> Same(Sweep(2), 2) [] kind = "sweep3" -> Same(Sweep(3), 3)
    [] kind = "few1" -> Same(Few(1, 6), 1) [] kind = "few2" -> Same(Few(2, 6), 2) [] kind = "few3" -> Same(Few(3, 6), 3)
    [] kind = "square1" -> Same(Square(1), 1) [] kind = "square2" -> Same(Square(2), 2) [] kind = "square3" -> Same(Square(3), 3)
    [] kind = "masses1" -> Masses(1) [] kind = "masses2" -> Masses(2) [] kind = "masses3" -> Masses(3)
    [] kind = "one1" -> OneMass(1)
    [] kind = "same1" -> SameMasses(1)
    [] kind = "twice1" -> MassesTwice(1)
    [] kind = "old1" -> MassesOldMomenta(1)
    [] kind = "early1" -> EarlyMomenta(1)
    [] kind = "back1" -> BackAgain(1)
    [] kind = "refuse1" -> Refuse(1)
    [] kind = "retry1" -> RefuseAccept(1) [] kind = "retry2" -> RefuseAccept(2)
    [] kind = "reagain1" -> RefuseAgain(1)
    [] kind = "inner1" -> InnerMasses(1)
    [] kind = "excursion1" -> Excursion(1)
    [] kind = "again1" -> Again(1)
    [] kind = "vev1" -> NewVev(1)
    [] kind = "at1" -> At(1)
    [] kind = "free1" -> Free(1) [] kind = "free2" -> Free(2)
    [] kind = "copy12" -> Step(<<"copy 2 1">>, 2, obj[1])
    [] kind = "base1" -> Base(1)
    [] kind = "frame1" -> Moved(1, obj[1].base)
    [] kind = "swap1" -> IF SwapIn(obj[1].cls) \/ SwapOut(obj[1].cls) THEN Swapped(1, SwapIn(obj[1].cls), ~SwapIn(obj[1].cls)) ELSE Swapped(1, SwapBoth(obj[1].cls), SwapBoth(obj[1].cls))
    [] kind = "swapout1" -> IF SwapOut(obj[1].cls) THEN Swapped(1, FALSE, TRUE) ELSE Moved(1, obj[1].base)
    [] kind = "squares1" -> Same(SquareCalls(1), 1)
    [] kind = "family" -> Same(FamilyCalls(FamilyNames[tid]), 1)
    [] kind = "light1" -> Light(1, ClassOf(1))
    [] kind = "peak1" -> Resonate(1, 0) [] kind = "peakb1" -> Resonate(1, 1) [] kind = "peakc1" -> Resonate(1, 2)
    [] kind = "lightmasses1" -> LightMasses(1)
    [] kind = "any" -> AnyStep

Init ==
  /\ tid \in Range(1, Count)
  /\ k = 1
  /\ obj = [o \in Slots |-> NoObj]
  /\ hist = "reset"
RECURSIVE JoinCalls(_)
JoinCalls(cs) == IF Len(cs) = 0 THEN "" ELSE ";" \o cs[1] \o JoinCalls(Tail(cs))
Next ==
  /\ ~IntLess(Len(Plan), k)
  /\ \E kind \in Kinds : LET s == TLCEval(Do(kind)) IN
     /\ obj' = [obj EXCEPT ![s.o] = s.obj]
     /\ hist' = hist \o JoinCalls(s.calls)
     /\ k' = k + 1
     /\ tid' = tid
     /\ k = Len(Plan) => PrintT("SCRIPT " \o hist')
Spec == Init /\ [][Next]_vars
=============================================================================
