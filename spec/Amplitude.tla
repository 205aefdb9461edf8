----------------------------- MODULE Amplitude ------------------------------
(***************************************************************************)
(* Common vocabulary of the process modules P_*.tla.                       *)
(*                                                                         *)
(* A process has parameters q (couplings, masses, widths, mixing angle,    *)
(* named as in the constructor of its class) and four external particles;  *)
(* 1 and 2 are incoming, 3 and 4 outgoing.  Model(q) gives its couplings,  *)
(* Context(q, mom) everything its amplitudes depend on at momenta mom,     *)
(* amp(c, ...) the amplitude for given twice-spins of the particles and    *)
(* amp2(c) the square averaged over initial and summed over final spins    *)
(* and colours.  In a context c, c.a13a[j][k] is <13> with spin indices j  *)
(* and k (0 for a massless particle), c.s412a is [4|1|2>, and so on.       *)
(***************************************************************************)
EXTENDS Spinor, SpinSum

Externals(legs, mom) == TLCEval(<<Particle(legs[1], mom[1]), Particle(legs[2], mom[2]), Particle(legs[3], mom[3]), Particle(legs[4], mom[4])>>)

\* The bracket through the listed particles, both ends with upper indices.
Bracket(kind, chain, ps) ==
  LET n == Len(chain)
      inner == [k \in Range(1, n - 2) |-> ps[chain[k + 1]]]
  IN BracketOf(kind, ps[chain[1]], TRUE, inner, ps[chain[n]], TRUE)

\* Denominator of the propagator of a particle of mass m and width w carrying momentum P.
Den(m, w, P) == Cx(MinkDot(P, P) - m * m, -(m * w))

Plus(d) == IntLess(0, d)
Minus(d) == IntLess(d, 0)
UpTo(n) == [k \in Range(1, n) |-> k - 1]

RECURSIVE SumFrom(_, _, _)
SumFrom(s, f(_), k) == IF IntLess(Len(s), k) THEN 0 ELSE f(s[k]) + SumFrom(s, f, k + 1)
Sum(s, f(_)) == SumFrom(s, f, 1)

Undefined == Assert(FALSE, "no such helicity combination")
=============================================================================
