---------------------------- MODULE SMParticles -----------------------------
(***************************************************************************)
(* Which particles each process class scatters, and what follows from that *)
(* alone: degrees of freedom to average over, symmetry factors, colour     *)
(* weights, and which exchanges of momenta leave the spin-summed square    *)
(* unchanged.  Written from the meaning of the processes, not from code.   *)
(*                                                                         *)
(* A particle is <<kind, sign>>: sign 1 particle, -1 antiparticle, 0 its   *)
(* own antiparticle.  Legs 1, 2 come in, legs 3, 4 go out.                 *)
(***************************************************************************)
EXTENDS CField, Sequences, TLC

LOCAL P(k) == <<k, 1>>
LOCAL B(k) == <<k, -1>>
LOCAL A == <<"A", 0>>
LOCAL G == <<"g", 0>>
LOCAL Z == <<"Z", 0>>
LOCAL H == <<"h", 0>>
LOCAL W == P("W")
LOCAL V == B("W")
LOCAL e == P("e")
LOCAL E == B("e")
LOCAL m == P("m")
LOCAL M == B("m")
LOCAL ne == P("ne")
LOCAL Ne == B("ne")
LOCAL nm == P("nm")
LOCAL Nm == B("nm")
LOCAL u == P("u")
LOCAL U == B("u")
LOCAL d == P("d")
LOCAL D == B("d")
LOCAL s == P("s")
LOCAL S == B("s")
LOCAL c == P("c")
LOCAL C == B("c")
LOCAL t == P("t")
LOCAL b == P("b")
LOCAL T == B("t")
LOCAL BB == B("b")

Particles == [
  AAWW |-> <<A, A, W, V>>, AAdd |-> <<A, A, d, D>>, AAee |-> <<A, A, e, E>>, AAuu |-> <<A, A, u, U>>,
  AWAW |-> <<A, W, A, W>>, AWWh |-> <<A, W, W, H>>, AWZW |-> <<A, W, Z, W>>, AWud |-> <<A, W, u, D>>,
  AZWW |-> <<A, Z, W, V>>, AZdd |-> <<A, Z, d, D>>, AZee |-> <<A, Z, e, E>>, AZuu |-> <<A, Z, u, U>>,
  AdZd |-> <<A, d, Z, d>>, AeZe |-> <<A, e, Z, e>>, AhWW |-> <<A, H, W, V>>, AnWe |-> <<A, ne, W, e>>,
  AuZu |-> <<A, u, Z, u>>, WWWW |-> <<W, W, W, W>>, WWWW2 |-> <<W, V, W, V>>, WdWd |-> <<W, d, W, d>>,
  WdZu |-> <<W, d, Z, u>>, ZWWh |-> <<Z, W, W, H>>, ZWZW |-> <<Z, W, Z, W>>, ZZWW |-> <<Z, Z, W, V>>,
  ZZZZ |-> <<Z, Z, Z, Z>>, ZhWW |-> <<Z, H, W, V>>, ZnWe |-> <<Z, ne, W, e>>, dAAd |-> <<d, A, A, d>>,
  dAdh |-> <<d, A, d, H>>, dAgd |-> <<d, A, G, d>>, dWgu |-> <<d, W, G, u>>, dZZd |-> <<d, Z, Z, d>>,
  dZdh |-> <<d, Z, d, H>>, ddAA |-> <<d, D, A, A>>, ddAh |-> <<d, D, A, H>>, ddWW |-> <<D, d, W, V>>,
  ddZZ |-> <<d, D, Z, Z>>, ddZh |-> <<d, D, Z, H>>, dddd |-> <<d, D, d, D>>, dddd2 |-> <<d, d, d, d>>,
  ddee |-> <<d, D, e, E>>, ddhh |-> <<d, D, H, H>>, ddnn |-> <<d, D, ne, Ne>>, ddss |-> <<d, D, s, S>>,
  deed |-> <<d, e, e, d>>, dgdh |-> <<d, G, d, H>>, dggd |-> <<D, G, G, D>>, dhdh |-> <<d, H, d, H>>,
  dnnd |-> <<d, nm, nm, d>>, dsds |-> <<d, s, d, s>>, eAAe |-> <<e, A, A, e>>, eAeh |-> <<e, A, e, H>>,
  eWWe |-> <<e, W, W, e>>, eZZe |-> <<e, Z, Z, e>>, eZeh |-> <<e, Z, e, H>>, eeAA |-> <<e, E, A, A>>,
  eeAZ |-> <<e, E, A, Z>>, eeAh |-> <<e, E, A, H>>, eeWW |-> <<e, E, W, V>>, eeZZ |-> <<e, E, Z, Z>>,
  eeZh |-> <<e, E, Z, H>>, eeee |-> <<e, E, e, E>>, eeee2 |-> <<e, e, e, e>>, eeeeQED |-> <<e, E, e, E>>,
  eehh |-> <<e, E, H, H>>, eemm |-> <<e, E, m, M>>, eemmQED |-> <<e, E, m, M>>, eenene |-> <<e, E, ne, Ne>>,
  eenmnm |-> <<e, E, nm, Nm>>, eheh |-> <<e, H, e, H>>, emem |-> <<e, m, e, m>>, enAW |-> <<E, ne, A, W>>,
  enWh |-> <<E, ne, W, H>>, enZW |-> <<E, ne, Z, W>>, enenee |-> <<e, ne, ne, e>>, enmenm |-> <<e, nm, e, nm>>,
  gAdd |-> <<G, A, d, D>>, gAuu |-> <<G, A, u, U>>, gWud |-> <<G, W, u, D>>, gZdd |-> <<G, Z, d, D>>,
  gZuu |-> <<G, Z, u, U>>, gdZd |-> <<G, d, Z, d>>, ggdd |-> <<G, G, d, D>>, gggg |-> <<G, G, G, G>>,
  gguu |-> <<G, G, u, U>>, guAu |-> <<G, u, A, u>>, guZu |-> <<G, u, Z, u>>, gugu |-> <<G, u, G, u>>,
  hWWh |-> <<H, W, W, H>>, hZZh |-> <<H, Z, Z, H>>, hgdd |-> <<H, G, d, D>>, hguu |-> <<H, G, u, U>>,
  hhWW |-> <<H, H, W, V>>, hhZZ |-> <<H, H, Z, Z>>, hhhh |-> <<H, H, H, H>>, hnWe |-> <<H, ne, W, e>>,
  menn |-> <<M, e, ne, Nm>>, mnen |-> <<m, ne, e, nm>>, nWWn |-> <<ne, W, W, ne>>, nZZn |-> <<ne, Z, Z, ne>>,
  nZnh |-> <<ne, Z, ne, H>>, nenenene |-> <<ne, Ne, ne, Ne>>, nenenene2 |-> <<ne, ne, ne, ne>>,
  nenenmnm |-> <<ne, Ne, nm, Nm>>, nenmnenm |-> <<ne, nm, ne, nm>>, nnWW |-> <<ne, Ne, W, V>>,
  nnZZ |-> <<ne, Ne, Z, Z>>, nnZh |-> <<ne, Ne, Z, H>>, uAAu |-> <<u, A, A, u>>, uAuh |-> <<u, A, u, H>>,
  uWWu |-> <<u, W, W, u>>, uZZu |-> <<u, Z, Z, u>>, uZuh |-> <<u, Z, u, H>>, ubdt |-> <<u, b, d, t>>,
  ucuc |-> <<u, c, u, c>>, udAW |-> <<U, d, A, V>>, udWh |-> <<u, D, W, H>>, udZW |-> <<U, d, Z, V>>,
  udnl |-> <<u, D, ne, E>>, udtb |-> <<u, D, t, BB>>, udud |-> <<u, d, u, d>>, ueeu |-> <<u, e, e, u>>,
  uguh |-> <<u, G, u, H>>, uhWd |-> <<u, H, W, d>>, uhuh |-> <<u, H, u, H>>, ulnd |-> <<u, e, ne, d>>,
  unnu |-> <<u, nm, nm, u>>, usus |-> <<u, s, u, s>>, uuAA |-> <<u, U, A, A>>, uuAh |-> <<u, U, A, H>>,
  uuWW |-> <<u, U, W, V>>, uuZZ |-> <<u, U, Z, Z>>, uuZh |-> <<u, U, Z, H>>, uucc |-> <<u, U, c, C>>,
  uudd |-> <<u, U, d, D>>, uuee |-> <<u, U, e, E>>, uuhh |-> <<u, U, H, H>>, uunn |-> <<u, U, ne, Ne>>,
  uuss |-> <<u, U, s, S>>, uuuu |-> <<u, U, u, U>>, uuuu2 |-> <<u, u, u, u>>]

Quarks == {"u", "d", "s", "c", "t", "b"}
Charged == {"e", "m"} \cup Quarks
AntiOf(p) == <<p[1], CASE p[2] = 1 -> -1 [] p[2] = -1 -> 1 [] OTHER -> 0>>

\* Polarisations, and colours.
States(p) == CASE p[1] \in {"h", "ne", "nm"} -> 1 [] p[1] \in {"A", "g"} -> 2 [] p[1] \in {"W", "Z"} -> 3 [] OTHER -> 2
Colours(p) == CASE p[1] \in Quarks -> 3 [] p[1] = "g" -> 8 [] OTHER -> 1

\* Spin labels (twice the spin), and those of the arguments of an amplitude: neutrinos and
\* Higgs bosons have none.
Labels(p) == CASE p[1] \in {"h", "ne", "nm"} -> <<>> [] p[1] \in {"A", "g"} -> <<-2, 2>> [] p[1] \in {"W", "Z"} -> <<-2, 0, 2>> [] OTHER -> <<-1, 1>>

IdenticalOut(cls) == Particles[cls][3] = Particles[cls][4]
IdenticalIn(cls) == Particles[cls][1] = Particles[cls][2]
SymmetryFactor(cls) == IF IdenticalOut(cls) THEN 2 ELSE 1

\* What the squared amplitude is averaged over when the polarisations of the initial legs in
\* fixed are given.
Average(cls, fixed) ==
  LET ps == Particles[cls]
      one(i) == (IF i \in fixed THEN 1 ELSE States(ps[i])) * Colours(ps[i])
  IN one(1) * one(2) * SymmetryFactor(cls)

HowMany(cls, kinds) == LET ps == Particles[cls] IN Len(SelectSeq(ps, LAMBDA p: p[1] \in kinds))

\* CP turns the process into the one with antiparticles.  Exchanging momenta 1, 2 (or 3, 4)
\* alone leaves the spin sum unchanged if the legs are identical, or if CP maps the initial
\* (final) state to itself by that exchange and the other state to itself leg by leg.
SelfConj(p) == p[2] = 0
SwapIn(cls) ==
  LET ps == Particles[cls] IN
  \/ ps[1] = ps[2]
  \/ ps[1] = AntiOf(ps[2]) /\ SelfConj(ps[3]) /\ SelfConj(ps[4])
SwapOut(cls) ==
  LET ps == Particles[cls] IN
  \/ ps[3] = ps[4]
  \/ ps[3] = AntiOf(ps[4]) /\ SelfConj(ps[1]) /\ SelfConj(ps[2])
SwapBoth(cls) ==
  LET ps == Particles[cls] IN
  \/ ps[1] = AntiOf(ps[2]) /\ ps[3] = AntiOf(ps[4])
Symmetric(cls) == SwapIn(cls) \/ SwapOut(cls)

\* Processes whose interactions conserve parity: those of bosons only, quantum electrodynamics,
\* chromodynamics, and fermions coupled to photons, gluons and Higgs bosons only.
Bosons == {"A", "g", "W", "Z", "h"}
Parity(cls) ==
  LET ks == {Particles[cls][i][1] : i \in {1, 2, 3, 4}} IN
  \/ ks \subseteq Bosons
  \/ cls \in {"eemmQED", "eeeeQED"}
  \/ ks \cap {"W", "Z", "ne", "nm"} = {} /\ ks \cap Bosons # {}
=============================================================================
