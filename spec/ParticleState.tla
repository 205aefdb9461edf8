--------------------------- MODULE ParticleState ----------------------------
(***************************************************************************)
(* What a particle object and a spinor product are to their user, and what *)
(* each call may return.                                                   *)
(*                                                                         *)
(* A particle has a mass and a momentum.  It is "fresh" when its last      *)
(* set_momentum, update or construction was accepted and its mass was not  *)
(* set since; only then are its spinors and matrices specified.  Setting   *)
(* the mass makes it "stale" until the next accepted update.  After a      *)
(* refused momentum it is "refused" until a momentum is accepted.          *)
(*                                                                         *)
(* All lazily computed quantities of the code are absent here on purpose:  *)
(* what a query returns depends on the mass and momentum alone, never on   *)
(* which queries were made before.                                         *)
(***************************************************************************)
EXTENDS Lorentz

\* Distance from the mass shell; the library allows about 1e-10 in absolute terms.
ShellError(m, p) == Abs(MinkDot(p, p) - m * m)
OnShell(m, p) == Less(ShellError(m, p), Num("2e-11"))
OffShell(m, p) == (\E k \in DOMAIN p : ~IsNum(p[k])) \/ Less(Num("1e-8"), ShellError(m, p))

NoParticle == [st |-> "none"]
\* State after a call that checks the mass shell; the version counts the changes a
\* spinor product has to be told about.
Checked(m, p, accepted, ver) ==
  IF accepted THEN [st |-> "fresh", m |-> m, p |-> p, ver |-> ver, part |-> TLCEval(Particle(m, p))]
  ELSE [st |-> "refused", m |-> m, p |-> p, ver |-> ver]
MassSet(ps, m) == [st |-> IF ps.st = "refused" THEN "refused" ELSE "stale", m |-> m, p |-> ps.p, ver |-> ps.ver + 1]

Massless(ps) == SameNum(ps.m, 0)

\* ---------------------------------------------------------------- queries
SpinorNames == {"ra", "la", "rs", "ls"}
MatrixName(f) == CASE f = "ram" -> "ra" [] f = "lam" -> "la" [] f = "rsm" -> "rs" [] f = "lsm" -> "ls"
MatrixNames == {"ram", "lam", "rsm", "lsm"}

Ints == [s \in {"-3", "-2", "-1", "0", "1", "2", "3"} |->
           CASE s = "-3" -> -3 [] s = "-2" -> -2 [] s = "-1" -> -1 [] s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3]

\* Spinor queries: without a spin label for massless particles, with one for massive ones;
\* the index is up unless "L" is asked for.
SpinorLegal(ps, a) ==
  IF Len(a) = 0 THEN Massless(ps) ELSE ~Massless(ps) /\ Ints[a[1]] \in Spins
SpinorWant(ps, f, a) ==
  IF Len(a) = 0 THEN ps.part[f][0]
  ELSE SpinorOf(ps.part, f, Len(a) = 1 \/ a[2] = "U")[Ints[a[1]]]

\* Matrix form: the spinors for spin -1 and +1 as columns.
MatrixWant(ps, f, a) ==
  LET s == SpinorOf(ps.part, MatrixName(f), Len(a) = 0 \/ a[1] = "U")
  IN <<<<s[-1][1], s[1][1]>>, <<s[-1][2], s[1][2]>>>>

\* ------------------------------------------------------------- generators
\* e^(i phi); 1 for a momentum along the z axis or at rest
Phase(p) == LET xy == Sqrt(p[2] * p[2] + p[3] * p[3]) IN IF SameNum(xy, 0) THEN 1 ELSE Cx(p[2], p[3]) / xy
\* The little-group generators in the basis (spin -1, spin +1), acting from the right on
\* spinor matrices with upper (lu) or lower (ul) indices.
SpinGen(name, p) ==
  LET f == Phase(p)
      half == 1 / 2
  IN CASE name = "spin_j3_lu" -> <<<<-half, 0>>, <<0, half>>>>
       [] name = "spin_jp_lu" -> <<<<0, 0>>, <<-f, 0>>>>
       [] name = "spin_jm_lu" -> <<<<0, -Conj(f)>>, <<0, 0>>>>
       [] name = "spin_j3_ul" -> <<<<half, 0>>, <<0, -half>>>>
       [] name = "spin_jp_ul" -> <<<<0, f>>, <<0, 0>>>>
       [] name = "spin_jm_ul" -> <<<<0, 0>>, <<Conj(f), 0>>>>
SpinGens == {"spin_j3_lu", "spin_jp_lu", "spin_jm_lu", "spin_j3_ul", "spin_jp_ul", "spin_jm_ul"}

\* Each Lorentz generator acts on one kind of spinor as the little group acts on its index.
LorentzTarget(name) ==
  CASE name \in {"lorentz_j3_lu", "lorentz_jp_lu", "lorentz_jm_lu"} -> "ra"
    [] name \in {"lorentz_j3_ul", "lorentz_jp_ul", "lorentz_jm_ul"} -> "la"
    [] name \in {"lorentz_j3_lu_dot", "lorentz_jp_lu_dot", "lorentz_jm_lu_dot"} -> "ls"
    [] name \in {"lorentz_j3_ul_dot", "lorentz_jp_ul_dot", "lorentz_jm_ul_dot"} -> "rs"
LorentzGens == {"lorentz_j3_lu", "lorentz_jp_lu", "lorentz_jm_lu", "lorentz_j3_ul", "lorentz_jp_ul", "lorentz_jm_ul",
                "lorentz_j3_lu_dot", "lorentz_jp_lu_dot", "lorentz_jm_lu_dot", "lorentz_j3_ul_dot", "lorentz_jp_ul_dot", "lorentz_jm_ul_dot"}
SpinOfLorentz(name) ==
  CASE name \in {"lorentz_j3_lu", "lorentz_j3_ul", "lorentz_j3_lu_dot", "lorentz_j3_ul_dot"} -> "spin_j3_lu"
    [] name \in {"lorentz_jp_lu", "lorentz_jp_ul", "lorentz_jp_lu_dot", "lorentz_jp_ul_dot"} -> "spin_jp_lu"
    [] OTHER -> "spin_jm_lu"
Inverse(m) == MatScale(1 / Det(m), <<<<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>>>>)
\* J R = R S determines J, R having the two spinors of the target kind as columns.
LorentzWant(ps, name) ==
  LET kind == LorentzTarget(name)
      sp == ps.part[kind]
      r == <<<<sp[-1][1], sp[1][1]>>, <<sp[-1][2], sp[1][2]>>>>
  IN MatMul(MatMul(r, SpinGen(SpinOfLorentz(name), ps.p)), Inverse(r))

\* For a massless particle the helicity generator is that of any massive particle moving the
\* same way, the ladder generator leading out of the single helicity state annihilates it, and
\* the other ladder generator vanishes.
AngleKind(kind) == kind \in {"ra", "la"}
Ladder(name) == SpinOfLorentz(name) # "spin_j3_lu"
VanishesMassless(name) == Ladder(name) /\ (AngleKind(LorentzTarget(name)) <=> SpinOfLorentz(name) = "spin_jp_lu")
Heavier(ps) == [ps EXCEPT !.part = Particle(1, <<Sqrt(1 + P3Sq(ps.p)), ps.p[2], ps.p[3], ps.p[4]>>)]
=============================================================================
