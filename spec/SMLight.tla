------------------------------ MODULE SMLight -------------------------------
(***************************************************************************)
(* What the squares become when all fermions are far lighter than the      *)
(* energy and no particle has a width: the textbook forms for massless     *)
(* fermions of definite handedness.  They contain a process through the    *)
(* charges and colours of its particles and through which momenta are in   *)
(* which channel only, so that processes that differ in flavour, charge or *)
(* the direction of time share one form.  gggg and hhhh are exact.         *)
(***************************************************************************)
EXTENDS SMLaws

\* ----------------------------------------------------------------- couplings
CosW2(q) == 1 - Sq(q.sinW)
E2(q) == Sq(q.echarge)
G2(q) == E2(q) / Sq(q.sinW)                    \* weak coupling squared
GZ2(q) == G2(q) / CosW2(q)                     \* and that of the Z boson
MW2(q) == Sq(q.massW)
MZ2(q) == MW2(q) / CosW2(q)
Up == {"u", "c", "t"}
Down == {"d", "s", "b"}
Q(f) == CASE f \in {"e", "m"} -> -1 [] f \in Up -> Num(2) / 3 [] f \in Down -> Num(-1) / 3 [] OTHER -> 0
T3(f) == IF f \in Up \cup {"ne", "nm"} THEN Num("0.5") ELSE Num("-0.5")
\* Z couplings of the left and right handed fermion.
GL(q, f) == T3(f) - Q(f) * Sq(q.sinW)
GR(q, f) == 0 - Q(f) * Sq(q.sinW)
Hand(q, x, f) == IF x = "L" THEN GL(q, f) ELSE GR(q, f)

\* ------------------------------------------------------- four fermions
\* Photon and Z boson between fermions a and b of handedness x and y at invariant r; gluon.
Rest(q, a, x, b, y, r) ==
  (IF SameNum(Q(a) * Q(b), 0) THEN 0 ELSE (Q(a) * Q(b) * E2(q)) / r)
  + (IF "sinW" \in DOMAIN q THEN (GZ2(q) * Hand(q, x, a) * Hand(q, y, b)) / (r - MZ2(q)) ELSE 0)
Glue(q, a, b, r) == IF a \in Quarks /\ b \in Quarks THEN GS(q) / r ELSE 0
Wboson(q, r) == (G2(q) / 2) / (r - MW2(q))
\* Colour sums of two amplitudes for the exchange in one channel (singlet ra, octet ga) and the other.
FourColour(a, b, ra, ga, rb, gb) ==
  IF a \in Quarks /\ b \in Quarks
  THEN 9 * ra * ra + 9 * rb * rb + 2 * ga * ga + 2 * gb * gb + 6 * ra * rb - (4 * ga * gb) / 3 + 8 * ga * rb + 8 * gb * ra
  ELSE (IF a \in Quarks \/ b \in Quarks THEN 3 ELSE 1) * Sq(ra + rb)
\* a with its antiparticle at S, b with its antiparticle; a to b at T; a to the antiparticle of b at U.
\* w: charged current at T.
Neutral(q, a, b, S, T, U, w) ==
  LET one(x, y, k, wb) == k * k * FourColour(a, b, Rest(q, a, x, b, y, S), Glue(q, a, b, S), wb, 0)
  IN 4 * (one("L", "L", U, IF w THEN Wboson(q, T) ELSE 0) + one("R", "R", U, 0) + one("L", "R", T, 0) + one("R", "L", T, 0))
\* Four fermions of one kind.
Identical(q, a, S, T, U) ==
  LET same(x) == U * U * FourColour(a, a, Rest(q, a, x, a, x, S), Glue(q, a, a, S), Rest(q, a, x, a, x, T), Glue(q, a, a, T))
      other(r, k) == k * k * FourColour(a, a, Rest(q, a, "L", a, "R", r), Glue(q, a, a, r), 0, 0)
  IN 4 * (same("L") + same("R") + 2 * other(S, T) + 2 * other(T, S))
\* Charged current at r; k is the invariant of both particles (or antiparticles) taken as incoming.
ChargedCurrent(q, colours, r, k) == 4 * colours * Sq(Wboson(q, r) * k)

\* ------------------------------------------------ two fermions, two vectors
\* Two vector bosons with squared masses m, n on a fermion line with invariant S, per handedness.
OnLine(S, T, U, m, n) == 4 * (T / U + U / T + (2 * S * (m + n)) / (T * U) - m * n * (1 / (T * T) + 1 / (U * U)))
TwoZ(q, f, S, T, U) ==
  Sq(GZ2(q)) * (Sq(Sq(GL(q, f))) + Sq(Sq(GR(q, f)))) * OnLine(S, T, U, MZ2(q), MZ2(q))
OneZ(q, f, c, S, T, U) == c * GZ2(q) * (Sq(GL(q, f)) + Sq(GR(q, f))) * OnLine(S, T, U, 0, MZ2(q))
\* A photon with a W boson: T to the upper fermion f of the doublet, U to the lower one g.
PhotonW(q, f, g, S, T, U) == E2(q) * (G2(q) / 2) * Sq((Q(f) * U + Q(g) * T) / (T + U)) * OnLine(S, T, U, 0, MW2(q))
GluonW(q, S, T, U) == GS(q) * (G2(q) / 2) * OnLine(S, T, U, 0, MW2(q))
\* A vector boson with a Higgs boson: c the squared couplings to the fermions, v to the Higgs boson.
WithHiggs(c, v, m, S, T, U) == ((c * v * m) * (S + ((m - T) * (m - U)) / m)) / Sq(S - m)
ZHiggs(q, f, S, T, U) == WithHiggs(GZ2(q) * (Sq(GL(q, f)) + Sq(GR(q, f))), GZ2(q), MZ2(q), S, T, U)
WHiggs(q, S, T, U) == WithHiggs(G2(q) / 2, G2(q), MW2(q), S, T, U)
\* Two W bosons: the fermion turns into its partner at T.
TwoW(q, f, S, T, U) ==
  LET m == MW2(q)
      x == (U * T) / (m * m) - 1
      aa == x * (Num("0.25") - m / S + (3 * m * m) / (S * S)) + S / m - 4
      ii == x * (Num("0.25") - m / (2 * S) - (m * m) / (S * T)) + S / m - 2 + (2 * m) / T
      ee == x * (Num("0.25") + (m * m) / (T * T)) + S / m
      c(g) == ((2 * S) / G2(q)) * ((Q(f) * E2(q)) / S + (GZ2(q) * g * CosW2(q)) / (S - MZ2(q)))
      l == 2 * T3(f) * c(GL(q, f))
      r == c(GR(q, f))
  IN Sq(G2(q)) * (ee - 2 * l * ii + l * l * aa + r * r * aa)

\* ---------------------------------------------------------------- the table
LightClasses == {
  "eemm", "eemmQED", "uucc", "ddss", "uuss", "uuee", "ddee", "eenmnm", "uunn", "ddnn", "nenenmnm", "emem", "ucuc", "dsds", "usus",
  "ueeu", "deed", "unnu", "dnnd", "enmenm", "nenmnenm", "eenene", "enenee", "uudd", "udud", "eeee", "eeeeQED", "dddd", "uuuu", "nenenene",
  "eeee2", "dddd2", "uuuu2", "nenenene2", "udnl", "udtb", "menn", "mnen", "ulnd", "ubdt", "eeZZ", "uuZZ", "ddZZ", "nnZZ", "eZZe", "uZZu", "dZZd",
  "nZZn", "AZee", "AZuu", "AZdd", "gZuu", "gZdd", "AeZe", "AuZu", "AdZd", "guZu", "gdZd", "eeZh", "uuZh", "ddZh", "nnZh", "eZeh", "uZuh", "dZdh",
  "nZnh", "udWh", "enWh", "uhWd", "hnWe", "AWud", "udAW", "enAW", "AnWe", "gWud", "dWgu", "eeWW", "uuWW", "ddWW", "nnWW", "eWWe", "uWWu", "WdWd",
  "nWWn", "gggg", "hhhh"}
\* Squares summed over all spins and colours, from the invariants i.
LightSum(cls, q, i) ==
  LET ps == Particles[cls]
      a == ps[1][1]
      b == ps[2][1]
      c == ps[3][1]
      s == i.s
      t == i.t
      u == i.u
      col(f) == IF f \in Quarks THEN 3 ELSE 1
      ph(f) == E2(q) * Sq(Q(f)) * col(f)       \* a photon or a gluon on the line of f, with colours
      gl == 4 * GS(q)
  IN CASE cls \in {"eemm", "eemmQED", "uucc", "ddss", "uuss", "uuee", "ddee", "eenmnm", "uunn", "ddnn", "nenenmnm"} -> Neutral(q, a, c, s, t, u, FALSE)
       [] cls \in {"eenene", "uudd"} -> Neutral(q, a, c, s, t, u, TRUE)
       [] cls \in {"emem", "ucuc", "dsds", "usus", "enmenm", "nenmnenm"} -> Neutral(q, a, b, t, u, s, FALSE)
       [] cls = "udud" -> Neutral(q, a, b, t, u, s, TRUE)
       [] cls \in {"ueeu", "deed", "unnu", "dnnd"} -> Neutral(q, a, b, u, t, s, FALSE)
       [] cls = "enenee" -> Neutral(q, a, b, u, t, s, TRUE)
       [] cls \in {"eeee", "eeeeQED", "dddd", "uuuu", "nenenene"} -> Identical(q, a, s, t, u)
       [] cls \in {"eeee2", "dddd2", "uuuu2", "nenenene2"} -> Identical(q, a, t, u, s)
       [] cls = "udnl" -> ChargedCurrent(q, 3, s, u)
       [] cls = "udtb" -> ChargedCurrent(q, 9, s, u)
       [] cls = "menn" -> ChargedCurrent(q, 1, u, t)
       [] cls = "mnen" -> ChargedCurrent(q, 1, u, s)
       [] cls = "ulnd" -> ChargedCurrent(q, 3, u, s)
       [] cls = "ubdt" -> ChargedCurrent(q, 9, t, s)
       [] cls \in {"eeZZ", "uuZZ", "ddZZ", "nnZZ"} -> col(a) * TwoZ(q, a, s, t, u)
       [] cls \in {"eZZe", "uZZu", "dZZd", "nZZn"} -> 0 - col(a) * TwoZ(q, a, u, s, t)
       [] cls \in {"AZee", "AZuu", "AZdd"} -> OneZ(q, c, ph(c), s, t, u)
       [] cls \in {"gZuu", "gZdd"} -> OneZ(q, c, gl, s, t, u)
       [] cls \in {"AeZe", "AuZu", "AdZd"} -> 0 - OneZ(q, b, ph(b), t, s, u)
       [] cls \in {"guZu", "gdZd"} -> 0 - OneZ(q, b, gl, t, s, u)
       [] cls \in {"eeZh", "uuZh", "ddZh", "nnZh"} -> col(a) * ZHiggs(q, a, s, t, u)
       [] cls \in {"eZeh", "uZuh", "dZdh", "nZnh"} -> 0 - col(a) * ZHiggs(q, a, t, s, u)
       [] cls \in {"udWh", "enWh"} -> col(a) * WHiggs(q, s, t, u)
       [] cls = "uhWd" -> 0 - 3 * WHiggs(q, u, t, s)
       [] cls = "hnWe" -> 0 - WHiggs(q, t, s, u)
       [] cls \in {"AWud", "udAW"} -> 3 * PhotonW(q, "u", "d", s, t, u)
       [] cls = "enAW" -> PhotonW(q, "ne", "e", s, u, t)
       [] cls = "AnWe" -> 0 - PhotonW(q, "ne", "e", t, s, u)
       [] cls = "gWud" -> 4 * GluonW(q, s, t, u)
       [] cls = "dWgu" -> 0 - 4 * GluonW(q, u, s, t)
       [] cls \in {"uuWW", "ddWW", "nnWW"} -> col(b) * TwoW(q, b, s, t, u)
       [] cls = "eeWW" -> TwoW(q, "e", s, u, t)
       [] cls \in {"uWWu", "nWWn"} -> 0 - col(a) * TwoW(q, a, u, t, s)
       [] cls = "eWWe" -> 0 - TwoW(q, "e", u, s, t)
       [] cls = "WdWd" -> 0 - 3 * TwoW(q, "d", t, s, u)
       [] cls = "gggg" -> 16 * 72 * Sq(GS(q)) * (3 - (t * u) / (s * s) - (s * u) / (t * t) - (s * t) / (u * u))
       [] cls = "hhhh" -> LET m == Sq(q.massh)
                              v2 == Sq(Vev(q))
                          IN Sq(((3 * m) / v2) * (1 + 3 * m * (1 / (s - m) + 1 / (t - m) + 1 / (u - m))))

\* Whether the form applies: fermion masses below a millionth of the energy, away from the axes.
IsLight(cls, q, i) ==
  /\ cls \in LightClasses
  /\ Narrow(q)
  /\ \A n \in DOMAIN q \cap Fermions : Less(Sq(q[n]), Abs(i.s) * Num("1e-11"))
  /\ Less(i.s, Abs(i.t) * 1000) /\ Less(i.s, Abs(i.u) * 1000)
=============================================================================
