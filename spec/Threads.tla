------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Threads that work at the same time, each on an object of its own.       *)
(*                                                                         *)
(* A computation takes several steps: it reads the object, leaves what it  *)
(* found in some working place, and later answers from there.  When the    *)
(* working place belongs to the object or the call, every answer is that   *)
(* of the object's own state, whatever the others do in between; this is   *)
(* why the record of each thread is judged as if it had been alone.  With  *)
(* Mutant "shared" there is one working place for all (a static variable), *)
(* with "stale" it is also not filled again when already filled.           *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS Workers, Settings, Mutant

VARIABLES obj,     \* thread -> the setting of its object
          pc,      \* thread -> "idle", "read" (working place filled), "done"
          work,    \* place -> what was left there
          answer   \* thread -> the last answer
vars == <<obj, pc, work, answer>>

Place(t) == IF Mutant = "none" THEN t ELSE 0
Places == Workers \cup {0}
Empty == "empty"

Init ==
  /\ obj \in [Workers -> Settings]
  /\ pc = [t \in Workers |-> "idle"]
  /\ work = [p \in Places |-> Empty]
  /\ answer = [t \in Workers |-> Empty]

Set(t) == \E x \in Settings :
  /\ pc[t] # "read"
  /\ obj' = [obj EXCEPT ![t] = x]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ work' = [work EXCEPT ![Place(t)] = Empty]
  /\ UNCHANGED answer
Read(t) ==
  /\ pc[t] = "idle"
  /\ work' = IF Mutant = "stale" /\ work[Place(t)] # Empty THEN work ELSE [work EXCEPT ![Place(t)] = obj[t]]
  /\ pc' = [pc EXCEPT ![t] = "read"]
  /\ UNCHANGED <<obj, answer>>
Answer(t) ==
  /\ pc[t] = "read"
  /\ answer' = [answer EXCEPT ![t] = work[Place(t)]]
  /\ pc' = [pc EXCEPT ![t] = "done"]
  /\ UNCHANGED <<obj, work>>

Next == \E t \in Workers : Set(t) \/ Read(t) \/ Answer(t)
Spec == Init /\ [][Next]_vars

\* Every answer is the one the object would give alone.
Alone == \A t \in Workers : pc[t] = "done" => answer[t] = obj[t]
=============================================================================
