------------------------------ MODULE GenPoints ------------------------------
(* Generator: the numbers behind the names of masses and momenta in scripts. *)
EXTENDS Points

Entry(name, text) == [name |-> name, text |-> text]
Table ==
  LET masses == [i \in Range(1, NMass + 1) |-> Entry("m:" \o ToString(i - 1), MassText(i - 1))]
      ofMass(m) == [d \in Range(1, NDir + 1) |-> IF m = 0 /\ d = 1 THEN Entry("", "") ELSE Entry("p:" \o ToString(m) \o ":" \o ToString(d - 1), MomentumText(<<m, d - 1>>))]
      bad == [i \in DOMAIN NotNumbers |-> Entry("p:99:" \o ToString(i), NotNumbers[i])]
  IN masses \o ofMass(0) \o ofMass(1) \o ofMass(2) \o ofMass(3) \o ofMass(4) \o ofMass(5) \o ofMass(6) \o bad

VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, Table)
Next == UNCHANGED done
=============================================================================
