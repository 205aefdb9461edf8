----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading a trace recorded from the code and walking along it.  A trace   *)
(* specification keeps the abstract state of the objects in the trace,     *)
(* says for each event whether the recorded outcome is one the             *)
(* specification allows in the current state, and moves to the next state. *)
(* Events that are not allowed are reported with the reason; the walk goes *)
(* on, so that one run reports all of them.                                *)
(***************************************************************************)
EXTENDS CField, TLC, Sequences, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,          \* number of events consumed
          rejected    \* number of events the specification does not allow

Event == Trace[l + 1]

\* The recorded complex numbers of an event: v is a list of [re, im] pairs.
ObsAt(v, k) == Cx(v[k][1], v[k][2])
ObsVec(v) == <<ObsAt(v, 1), ObsAt(v, 2)>>
ObsMat(v) == <<<<ObsAt(v, 1), ObsAt(v, 2)>>, <<ObsAt(v, 3), ObsAt(v, 4)>>>>

CloseVec(a, b, scale, tol) == Close(a[1], b[1], scale, tol) /\ Close(a[2], b[2], scale, tol)
CloseMat(a, b, scale, tol) == CloseVec(a[1], b[1], scale, tol) /\ CloseVec(a[2], b[2], scale, tol)

Returned(e) == e.k = "ok"
Threw(e, x) == e.k = "err" /\ e.x = x
Allowed == [ok |-> TRUE, why |-> ""]
Unless(ok, why) == [ok |-> ok, why |-> IF ok THEN "" ELSE why]

\* Consume the current event with the given verdict.
Consume(verdict) ==
  /\ IntLess(l, Len(Trace))
  /\ l' = l + 1
  /\ rejected' = rejected + (IF verdict.ok THEN 0 ELSE 1)
  /\ IF verdict.ok THEN TRUE ELSE PrintT("REJECT " \o ToString(l + 1) \o " " \o ToString(verdict.why))
  /\ IF l + 1 # Len(Trace) THEN TRUE ELSE PrintT("TRACE-END " \o ToString(Len(Trace)) \o " " \o ToString(rejected'))

View == l
TraceInit == l = 0 /\ rejected = 0
=============================================================================
