----------------------------- MODULE TraceLaws ------------------------------
(***************************************************************************)
(* Traces of calls on process objects, judged by the laws of SMLaws alone: *)
(* what was recorded must agree with what was recorded before.             *)
(***************************************************************************)
EXTENDS SMLight, TraceBase

VARIABLES obj,    \* slot -> [cls, q, mom, amps]: amps are the amplitudes recorded at these momenta
          seen    \* what was recorded of squares: [cls, f, fam, params, s, t, rawt, value]

None == <<>>
Tol == Num(IOEnv.RELTOL)
Zip(names, vals) == [n \in {names[k] : k \in DOMAIN names} |-> Num(vals[CHOOSE k \in DOMAIN names : names[k] = n])]
Update(q, names, vals) == IF Len(names) = 0 THEN q ELSE Zip(names, vals) @@ q
FourOf(p) == <<<<p[1], p[2], p[3], p[4]>>, <<p[5], p[6], p[7], p[8]>>, <<p[9], p[10], p[11], p[12]>>, <<p[13], p[14], p[15], p[16]>>>>
Mom(p) == TLCEval(FourOf([k \in DOMAIN p |-> Num(p[k])]))

State(cls, q, mom) == [cls |-> cls, q |-> q, mom |-> mom, amps |-> <<>>]

Near(a, b, scale) == Less(Abs(a - b), Abs(scale) * Num("1e-15"))

\* ---------------------------------------------------------------- the laws
Legs(o) == LegsOf(o.cls, o.q)
SameIn(o) == LET ps == Particles[o.cls] IN ps[1] = ps[2]
Recorded(o, f, d) == o.amps[<<f, d>>]
Complete(o, f) ==
  LET fs == {Sig(o.cls).amps[k].f : k \in DOMAIN Sig(o.cls).amps}
      ds == SumLabels(o.cls, f)
  IN \A g \in fs : \A k \in DOMAIN ds : <<g, ds[k]>> \in DOMAIN o.amps
SumLaw(o, f, value) ==
  LET i == TLCEval(Invariants(o.mom))
      want == TLCEval(SumOf(o.cls, f, i, QuarkMass(o.cls, o.q), LAMBDA g, d: Recorded(o, g, d)))
  IN IF ~Complete(o, f) \/ ~HasSum(o.cls, f) THEN <<>>
     ELSE IF Close(value, want, Abs(want), Tol) THEN <<>>
     ELSE <<"sum", Dec(Re(want), 20)>>
Sound(value) == IsNum(value) /\ ~Less(Re(value), 0)

\* Reversed spins.
Reversed(d) == [k \in DOMAIN d |-> 0 - d[k]]
Plane(mom) == LET p == Add4(mom[1], mom[2]) IN \A k \in {2, 3, 4} : Less(Abs(p[k]), p[1] * Num("1e-15"))
RECURSIVE SumSet(_, _)
SumSet(f(_), xs) == IF xs = {} THEN 0 ELSE LET x == CHOOSE y \in xs : TRUE IN f(x) + SumSet(f, xs \ {x})
ParityLaw(o, value) ==
  LET size == TLCEval(SumSet(LAMBDA y: AbsSq(o.amps[y]), DOMAIN o.amps))
      bad == {x \in DOMAIN o.amps : <<x[1], Reversed(x[2])>> \in DOMAIN o.amps
                 /\ ~Close(AbsSq(o.amps[x]), AbsSq(o.amps[<<x[1], Reversed(x[2])>>]), size, Tol)}
  IN IF Parity(o.cls) /\ Narrow(o.q) /\ Plane(o.mom) /\ Complete(o, "amp2") /\ bad # {} THEN <<"parity", CHOOSE x \in bad : TRUE>> ELSE <<>>

Entry(o, f, value) ==
  LET fam == Family(o.cls, o.q)
      g == <<o.mom[fam.order[1]], o.mom[fam.order[2]], o.mom[fam.order[3]], o.mom[fam.order[4]]>>
      i == TLCEval(Invariants(g))
      whole == f = "amp2"
      sym == whole /\ Symmetric(o.cls)
  IN [cls |-> o.cls, f |-> f, fam |-> IF whole THEN PartnerName(o.cls, o.q) ELSE o.cls \o f,
      params |-> IF whole THEN KeyParams(o.cls, o.q) ELSE o.q,
      s |-> i.s, rawt |-> i.t, t |-> IF sym /\ Less(i.u, i.t) THEN i.u ELSE i.t,
      value |-> TLCEval(IF whole THEN Stripped(o.cls, o.q, value) ELSE value)]
SameParams(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : SameNum(a[n], b[n])
Comparable(a, b) == a.fam = b.fam /\ SameParams(a.params, b.params) /\ Near(a.s, b.s, a.s) /\ Near(a.t, b.t, a.s)
Law(a, b) == IF a.cls # b.cls THEN "partner" ELSE IF Near(a.rawt, b.rawt, a.s) THEN "frame" ELSE "exchange"
Compare(x) ==
  LET bad == {k \in DOMAIN seen : Comparable(seen[k], x) /\ ~Close(x.value, seen[k].value, Abs(seen[k].value), Tol)}
      k == CHOOSE j \in bad : \A h \in bad : ~IntLess(h, j)
  IN IF bad = {} THEN <<>> ELSE <<Law(seen[k], x), seen[k].cls, Dec(Re(seen[k].value), 20), Dec(Re(x.value), 20)>>

\* The form for light fermions, shared by processes that differ in flavour, charge and direction.
LightTol == IF Less(Tol, Num("1e-9")) THEN Num("1e-7") ELSE Num("1e-5")
LightLaw(o, f, value) ==
  LET i == TLCEval(Invariants(o.mom))
      want == TLCEval(LightSum(o.cls, o.q, i) / Average(o.cls, {}))
  IN IF f # "amp2" \/ o.cls \notin LightClasses THEN <<>>
     ELSE IF ~IsLight(o.cls, o.q, i) \/ Close(value, want, Abs(want), LightTol) THEN <<>>
     ELSE <<"partner", "light", Dec(Re(want), 20)>>

Laws(o, f, value, x) ==
  IF ~Sound(value) THEN <<"sum", "not a number or negative">>
  ELSE LET a == TLCEval(SumLaw(o, f, value))
           b == TLCEval(Compare(x))
           c == TLCEval(ParityLaw(o, value))
           d == TLCEval(LightLaw(o, f, value))
       IN a \o b \o c \o d

\* --------------------------------------------------------------- the walk
Set(s, x) == obj' = (s :> x) @@ obj
Keep == UNCHANGED obj
Step(e) ==
  CASE e.op = "reset" -> obj' = <<>> /\ seen' = <<>> /\ Consume(Allowed)
    [] e.op = "new" -> Set(e.o, State(e.cls, Zip(Sig(e.cls).ctor, e.a), None)) /\ UNCHANGED seen /\ Consume(Allowed)
    [] e.op = "free" -> obj' = [s \in DOMAIN obj \ {e.o} |-> obj[s]] /\ UNCHANGED seen /\ Consume(Allowed)
    [] e.op = "setm" -> Set(e.o, State(obj[e.o].cls, Update(obj[e.o].q, Sig(obj[e.o].cls).setm, e.a), None)) /\ UNCHANGED seen /\ Consume(Allowed)
    [] e.op = "setv" -> Set(e.o, State(obj[e.o].cls, [n \in {"vev"} |-> Num(e.v)] @@ obj[e.o].q, None)) /\ UNCHANGED seen /\ Consume(Allowed)
    [] e.op = "mom" -> Set(e.o, State(obj[e.o].cls, obj[e.o].q, IF Returned(e) THEN Mom(e.p) ELSE None)) /\ UNCHANGED seen /\ Consume(Unless(Returned(e), <<"frame", obj[e.o].cls, "momenta were refused">>))
    [] e.op = "amp" ->
         LET o == obj[e.o] IN
         /\ IF Returned(e) /\ o.mom # None THEN Set(e.o, [cls |-> o.cls, q |-> o.q, mom |-> o.mom, amps |-> (<<e.f, e.d>> :> ObsAt(e.v, 1)) @@ o.amps]) ELSE Keep
         /\ UNCHANGED seen
         /\ Consume(Unless(Returned(e), <<"sum", o.cls, e.f, "threw">>))
    [] e.op \in {"amp2", "amp2at"} ->
         LET p == obj[e.o]
             o == IF e.op = "amp2" THEN p ELSE State(p.cls, p.q, Mom(e.p))
             f == IF e.op = "amp2" THEN e.f ELSE "amp2"
         IN IF o.mom = None THEN Keep /\ UNCHANGED seen /\ Consume(Allowed)
            ELSE IF ~Returned(e) THEN Keep /\ UNCHANGED seen /\ Consume(Unless(FALSE, <<"sum", o.cls, f, "threw">>))
            ELSE LET v == ObsAt(e.v, 1)
                     x == TLCEval(IF IsNum(v) THEN Entry(o, f, v) ELSE <<>>)
                     bad == TLCEval(Laws(o, f, v, x))
                 IN /\ IF e.op = "amp2" THEN Keep ELSE Set(e.o, State(p.cls, p.q, None))
                    /\ seen' = IF IsNum(v) THEN Append(seen, x) ELSE seen
                    /\ Consume(Unless(bad = <<>>, <<bad, o.cls, f, v>>))
    [] OTHER -> Keep /\ UNCHANGED seen /\ Consume(Unless(FALSE, <<e.op, "during", e.call>>))

Init == TraceInit /\ obj = <<>> /\ seen = <<>>
Next == IntLess(l, Len(Trace)) /\ Step(Event)
Spec == Init /\ [][Next]_<<l, rejected, obj, seen>>
=============================================================================
