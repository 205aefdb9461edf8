------------------------------ MODULE TraceSM -------------------------------
(***************************************************************************)
(* Traces of calls on process objects.  The abstract state of an object is *)
(* its class, its current parameters and its current momenta; every value  *)
(* it returns must be the value the process module defines for exactly     *)
(* those, whatever was called before and whatever other objects did.       *)
(***************************************************************************)
EXTENDS SMPoints, TraceBase

VARIABLES obj,    \* slot -> [cls, q, mom, ctx, size]; mom is empty until momenta were accepted
          copied  \* slots whose object was made by copying another

None == <<>>

Zip(names, vals) == [n \in {names[k] : k \in DOMAIN names} |-> Num(vals[CHOOSE k \in DOMAIN names : names[k] = n])]
Update(q, names, vals) == IF Len(names) = 0 THEN q ELSE Zip(names, vals) @@ q

FourOf(p) == <<<<p[1], p[2], p[3], p[4]>>, <<p[5], p[6], p[7], p[8]>>, <<p[9], p[10], p[11], p[12]>>, <<p[13], p[14], p[15], p[16]>>>>
Mom(p) == TLCEval(FourOf([k \in DOMAIN p |-> Num(p[k])]))

\* How far a momentum is from the mass shell, against the absolute allowance of the library,
\* which is 1e9 times the precision of the numbers it was built with.
Double == "PRECISION" \in DOMAIN IOEnv /\ IOEnv.PRECISION = "double"
Surely == Num(IF Double THEN "5e-8" ELSE "2e-11")
Hardly == Num(IF Double THEN "2e-6" ELSE "1e-8")
OffShell(m, p) == Abs(MinkDot(p, p) - m * m)
AllOn(legs, mom) == \A k \in DOMAIN legs : Less(OffShell(legs[k], mom[k]), Surely)
SomeOff(legs, mom) == \E k \in DOMAIN legs : Less(Hardly, OffShell(legs[k], mom[k]))

RelTol == Num(IOEnv.RELTOL)

\* A squared amplitude is compared relative to its own size; an amplitude relative to the
\* root of the spin sum of its method, since single spin amplitudes can vanish by cancellation.
RECURSIVE SumSq(_, _, _, _, _)
SumSq(cls, f, c, ds, k) == IF IntLess(Len(ds), k) THEN 0 ELSE AbsSq(ValueOf(cls, f, c, ds[k])) + SumSq(cls, f, c, ds, k + 1)
ArgsOf(cls, f) == LET as == Sig(cls).amps IN as[CHOOSE k \in DOMAIN as : as[k].f = f].args
Scales(cls, c, size) ==
  LET fs == {Sig(cls).amps[k].f : k \in DOMAIN Sig(cls).amps}
  IN TLCEval([f \in fs |-> IF f = "amp" THEN Sqrt(Abs(size)) ELSE Sqrt(SumSq(cls, f, c, Product(ArgsOf(cls, f)), 1))])

State(cls, q, mom) ==
  IF mom = None THEN [cls |-> cls, q |-> q, mom |-> None, ctx |-> None, size |-> None, scale |-> None]
  ELSE LET c == TLCEval(ContextOf(cls, q, mom))
           size == TLCEval(ValueOf(cls, "amp2", c, <<>>))
       IN [cls |-> cls, q |-> q, mom |-> mom, ctx |-> c, size |-> size, scale |-> Scales(cls, c, size)]

SquareOK(o, f, v) ==
  LET want == TLCEval(IF f = "amp2" THEN o.size ELSE ValueOf(o.cls, f, o.ctx, <<>>))
  IN Unless(Close(v, want, MaxNum(Abs(want), Abs(o.size)), RelTol), <<"expected", Dec(Re(want), 20), "got", v>>)
AmpOK(o, f, d, v) ==
  LET want == TLCEval(ValueOf(o.cls, f, o.ctx, d))
  IN Unless(Close(v, want, MaxNum(Abs(want), o.scale[f]), RelTol), <<"expected", Dec(Re(want), 20), Dec(Im(want), 20), "got", v>>)

Set(s, x) == obj' = (s :> x) @@ obj
Keep == UNCHANGED obj
\* What is said of an object that was copied from another, so that findings can tell.
Who(s) == IF s \in copied THEN "copied " \o obj[s].cls ELSE obj[s].cls

Copied(e) ==
  copied' = CASE e.op = "reset" -> {}
              [] e.op = "copy" /\ Returned(e) -> copied \cup {e.o}
              [] e.op \in {"new", "free"} -> copied \ {e.o}
              [] OTHER -> copied
Step(e) ==
  CASE e.op = "reset" -> obj' = <<>> /\ Consume(Allowed)
    [] e.op = "new" ->
         /\ Set(e.o, State(e.cls, Zip(Sig(e.cls).ctor, e.a), None))
         /\ Consume(Unless(Returned(e), "construction failed"))
    [] e.op = "copy" ->
         /\ IF Returned(e) /\ e.done = 1 THEN Set(e.o, obj[e.from]) ELSE Keep
         /\ Consume(Unless(Returned(e), "copying failed"))
    [] e.op = "free" -> obj' = [s \in DOMAIN obj \ {e.o} |-> obj[s]] /\ Consume(Allowed)
    [] e.op = "setm" ->
         LET o == obj[e.o] IN
         /\ Set(e.o, State(o.cls, Update(o.q, Sig(o.cls).setm, e.a), None))
         /\ Consume(Unless(Returned(e), "set_masses failed"))
    [] e.op = "setv" ->
         LET o == obj[e.o] IN
         /\ Set(e.o, State(o.cls, [n \in {"vev"} |-> Num(e.v)] @@ o.q, None))
         /\ Consume(Unless(Returned(e), "set_v failed"))
    [] e.op = "mom" ->
         LET o == obj[e.o]
             mom == Mom(e.p)
             legs == TLCEval(LegsOf(o.cls, o.q))
         IN IF AllOn(legs, mom)
            THEN /\ Set(e.o, State(o.cls, o.q, IF Returned(e) THEN mom ELSE None))
                 /\ Consume(Unless(Returned(e), <<Who(e.o), "momenta on the mass shell were refused">>))
            ELSE /\ Set(e.o, State(o.cls, o.q, None))
                 /\ Consume(Unless(~SomeOff(legs, mom) \/ Threw(e, "runtime_error"), <<Who(e.o), "momenta off the mass shell were accepted">>))
    [] e.op = "amp" ->
         LET o == obj[e.o] IN
         /\ Keep
         /\ Consume(IF o.mom = None THEN Allowed
                    ELSE IF ~Returned(e) THEN Unless(FALSE, <<Who(e.o), e.f, e.d, "threw">>)
                    ELSE LET r == AmpOK(o, e.f, e.d, ObsAt(e.v, 1)) IN [r EXCEPT !.why = <<Who(e.o), e.f, e.d, @>>])
    [] e.op = "amp2" ->
         LET o == obj[e.o] IN
         /\ Keep
         /\ Consume(IF o.mom = None THEN Allowed
                    ELSE IF ~Returned(e) THEN Unless(FALSE, <<Who(e.o), e.f, "threw">>)
                    ELSE LET r == SquareOK(o, e.f, ObsAt(e.v, 1)) IN [r EXCEPT !.why = <<Who(e.o), e.f, @>>])
    [] e.op = "amp2at" ->
         LET o == obj[e.o]
             t == State(o.cls, o.q, Mom(e.p))
         IN /\ Set(e.o, State(o.cls, o.q, None))
            /\ Consume(IF ~Returned(e) THEN Unless(FALSE, <<Who(e.o), "amp2 at momenta threw">>)
                       ELSE LET r == SquareOK(t, "amp2", ObsAt(e.v, 1)) IN [r EXCEPT !.why = <<Who(e.o), "amp2 at momenta", @>>])
    [] OTHER -> Keep /\ Consume(Unless(FALSE, <<e.op, "during", e.call>>))

Init == TraceInit /\ obj = <<>> /\ copied = {}
Next == IntLess(l, Len(Trace)) /\ Step(Event) /\ Copied(Event)
Spec == Init /\ [][Next]_<<l, rejected, obj, copied>>
=============================================================================
