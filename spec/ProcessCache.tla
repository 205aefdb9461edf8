---------------------------- MODULE ProcessCache ----------------------------
(***************************************************************************)
(* How a process object keeps what its amplitudes are made of, checked     *)
(* against what its user may rely on.                                      *)
(*                                                                         *)
(* The user sees parameters (a mass of external particles, a mass of an    *)
(* exchanged one, a further coupling) and momenta; after momenta were      *)
(* accepted, and until the masses change, an amplitude is that of the      *)
(* current parameters and momenta.                                         *)
(*                                                                         *)
(* The code keeps two external particles (each with mass, momentum and the *)
(* spinors made from them), a spinor product of both with its value once   *)
(* asked for, the mass in the propagator, the denominator, and a coupling  *)
(* made from both masses.  Every kept thing is represented by the masses   *)
(* and momenta it was made from.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Ext, Inn,      \* masses of the external and of the exchanged particles
          Others,        \* values of the further coupling
          Mutant         \* a deliberately broken rule, or "none"

VARIABLES ext, inn, oth,      \* the user's parameters
          mom, valid,         \* the user's last momenta; whether amplitudes may be relied on
          pm, pp, sp,         \* per particle: mass, momentum, and <<mass, momentum>> its spinors are of
          ends,               \* what the product was last told: the spinors it is to be made of
          val,                \* the product's value: <<>> or what it was made of
          pmass, den,         \* the propagator's mass; <<mass, momenta>> the denominator is of
          coup,               \* <<ext, inn, oth>> the coupling is of
          fresh,              \* momenta used so far
          last                \* what the last request answered and should have answered
kept == <<pm, pp, sp, ends, val, pmass, den, coup>>
vars == <<ext, inn, oth, mom, valid, kept, fresh, last>>

Legs == {1, 2}
\* Momenta are <<mass they are on shell for, leg off shell or 0, number>>.
OnFor(m, p, leg) == p[1] = m /\ p[2] # leg
Nothing == [asked |-> FALSE, want |-> <<>>, got |-> <<>>]

Init ==
  /\ ext \in Ext /\ inn \in Inn /\ oth \in Others
  /\ mom = <<ext, 0, 0>> /\ valid = FALSE
  /\ pm = [i \in Legs |-> ext] /\ pp = [i \in Legs |-> <<ext, 0, 0>>] /\ sp = [i \in Legs |-> <<ext, <<ext, 0, 0>>>>]
  /\ ends = <<>> /\ val = <<>>
  /\ pmass = inn /\ den = <<>>
  /\ coup = <<ext, inn, oth>>
  /\ fresh = 0 /\ last = Nothing

SetMasses(e, i) ==
  /\ ext' = e /\ inn' = i /\ UNCHANGED <<oth, mom>>
  /\ valid' = FALSE
  /\ pm' = IF Mutant = "leg2" THEN [pm EXCEPT ![1] = e] ELSE [j \in Legs |-> e]
  /\ pmass' = IF Mutant = "propagator" THEN pmass ELSE i
  /\ coup' = IF Mutant = "coupling" THEN coup ELSE <<e, i, oth>>
  /\ UNCHANGED <<pp, sp, ends, val, den, fresh>>
  /\ last' = Nothing

SetOther(o) ==
  /\ oth' = o /\ UNCHANGED <<ext, inn, mom>>
  /\ valid' = FALSE
  /\ coup' = <<ext, inn, o>>
  /\ UNCHANGED <<pm, pp, sp, ends, val, pmass, den, fresh>>
  /\ last' = Nothing

\* Particle after particle takes its momentum; the first that is off its mass shell ends the call.
SetMomenta(p) ==
  LET ok(j) == OnFor(pm[j], p, j)
      first == IF ~ok(1) THEN 1 ELSE IF ~ok(2) THEN 2 ELSE 3
      taken == {j \in Legs : j < first}
      told == {j \in Legs : j <= first}
      same == Mutant = "sameskip" /\ mom = p /\ val # <<>>
      sp2 == [j \in Legs |-> IF j \in taken THEN <<pm[j], p>> ELSE sp[j]]
  IN /\ UNCHANGED <<ext, inn, oth, pm, pmass, coup>>
     /\ mom' = p /\ last' = Nothing
     /\ IF same THEN valid' = TRUE /\ UNCHANGED <<pp, sp, ends, val, den>>
        ELSE /\ pp' = [j \in Legs |-> IF j \in told THEN p ELSE pp[j]]
             /\ sp' = sp2
             /\ valid' = (first = 3)
             /\ IF first # 3
                THEN UNCHANGED <<ends, val, den>>
                ELSE /\ ends' = sp2
                     /\ val' = IF Mutant = "keepval" /\ val # <<>> THEN val ELSE <<>>
                     /\ den' = IF Mutant = "denominator" /\ den # <<>> THEN den ELSE <<pmass, p>>

Ask ==
  /\ valid
  /\ LET v == IF val # <<>> THEN val ELSE <<sp[1], sp[2]>> IN
     /\ val' = v
     /\ last' = [asked |-> TRUE, want |-> << <<ext, mom>>, <<ext, mom>>, <<inn, mom>>, <<ext, inn, oth>> >>,
                 got |-> <<v[1], v[2], den, coup>>]
  /\ UNCHANGED <<ext, inn, oth, mom, valid, pm, pp, sp, ends, pmass, den, coup, fresh>>

Next ==
  \/ \E e \in Ext, i \in Inn : SetMasses(e, i)
  \/ \E o \in Others : SetOther(o)
  \/ \E e \in Ext, off \in {0, 1, 2} : SetMomenta(<<e, off, fresh + 1>>) /\ fresh' = fresh + 1
  \/ SetMomenta(mom) /\ UNCHANGED fresh
  \/ Ask
Spec == Init /\ [][Next]_vars

\* Checked on every step: an amplitude that may be relied on is made of nothing old.
AlwaysCurrent == [][last'.want = last'.got]_vars
\* Valid momenta are never refused: the user's view of what is on shell is the code's.
AcceptsValid == [][(mom' # mom /\ mom'[1] = ext /\ mom'[2] = 0) => valid']_vars

\* Momenta matter only up to equality.
Ids == <<mom[3], pp[1][3], pp[2][3], sp[1][2][3], sp[2][2][3]>>
       \o (IF ends = <<>> THEN <<>> ELSE <<ends[1][2][3], ends[2][2][3]>>)
       \o (IF val = <<>> THEN <<>> ELSE <<val[1][2][3], val[2][2][3]>>) \o (IF den = <<>> THEN <<>> ELSE <<den[2][3]>>)
First(q, x) == CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1 .. (i - 1) : q[j] # x
NoId(p) == <<p[1], p[2]>>
NoId2(t) == IF t = <<>> THEN <<>> ELSE <<t[1], NoId(t[2])>>
SymView == <<ext, inn, oth, NoId(mom), valid, pm, [j \in Legs |-> NoId(pp[j])], [j \in Legs |-> NoId2(sp[j])],
             IF ends = <<>> THEN <<>> ELSE <<NoId2(ends[1]), NoId2(ends[2])>>, IF val = <<>> THEN <<>> ELSE <<NoId2(val[1]), NoId2(val[2])>>,
             pmass, NoId2(den), coup, [i \in DOMAIN Ids |-> First(Ids, Ids[i])]>>
=============================================================================
