------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* Masses and momenta to try single particles at, determined by a seed.    *)
(*                                                                         *)
(* A mass is named by a number 0..NMass (0: massless), a momentum by the   *)
(* pair <<mass, direction>> it is on the mass shell for; direction 0 is    *)
(* the rest frame.  The directions include the axes, the coordinate        *)
(* planes, all octants, momenta close to an axis, and random ones, each    *)
(* with its own size.                                                      *)
(***************************************************************************)
EXTENDS Lorentz, Json, IOUtils

Seed == IOEnv.SEED
Between(lo, hi, key) == Num(lo) + (Num(hi) - Num(lo)) * Rnd(key)

NMass == 6
MassOf(i) ==
  CASE i = 0 -> Num(0)
    [] i = 1 -> Num(Dec(Between("0.2", "2", <<Seed, "m1">>), 6))
    [] i = 2 -> Num(Dec(Between(3, 30, <<Seed, "m2">>), 7))
    [] i = 3 -> Num(Dec(Between(60, 180, <<Seed, "m3">>), 8))
    [] i = 4 -> Num("0.000511")
    [] i = 5 -> Num("1e-9")          \* far below every energy
    [] i = 6 -> Num(1)

Axes == <<<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>>>
Planes == <<<<3, 4, 0>>, <<-3, 4, 0>>, <<-4, -3, 0>>, <<4, -3, 0>>, <<3, 0, 4>>, <<-3, 0, 4>>, <<-4, 0, -3>>, <<4, 0, -3>>,
            <<0, 3, 4>>, <<0, -3, 4>>, <<0, -4, -3>>, <<0, 4, -3>>>>
Octants == <<<<2, 3, 6>>, <<-2, 3, 6>>, <<2, -3, 6>>, <<-2, -3, 6>>, <<2, 3, -6>>, <<-2, 3, -6>>, <<2, -3, -6>>, <<-2, -3, -6>>>>
NearAxes == <<<<"1e-6", "-2e-6", 3>>, <<"-1e-6", "2e-6", -3>>, <<3, "1e-6", "-2e-6">>, <<"1e-7", 3, "1e-7">>, <<-3, "-1e-8", 0>>,
              <<"2e-10", "-1e-10", -3>>, <<"3e-10", "4e-10", 2>>, <<"-1e-13", "3e-13", -3>>, <<"2e-20", "1e-20", -2>>, <<"-1e-11", 3, "2e-11">>>>
Listed == Axes \o Planes \o Octants \o NearAxes
NListed == Len(Listed)
NRandom == 9
NDir == NListed + NRandom

RandomSpace(key) == <<Between(-9, 9, <<key, "x">>), Between(-9, 9, <<key, "y">>), Between(-9, 9, <<key, "z">>)>>
\* The size of a momentum: mostly of order 1 to 100; some of the random ones are tiny or huge.
\* The listed directions of a kind share one size, so that they have the same energy and many
\* components in common.
GroupOf(d) == IF d \in Range(1, 6) THEN 1 ELSE IF d \in Range(7, 18) THEN 2 ELSE IF d \in Range(19, 26) THEN 3 ELSE d
Factors == <<"0.00003", "0.001", "0.02", 1, 1, 1, 3, 10, 30>>
FactorOf(d) == IF IntLess(NListed, d) THEN Factors[d - NListed] ELSE 1
SizeOf(d) == Between("0.3", 30, <<Seed, "size", IF d \in Range(1, 26) THEN <<"group", GroupOf(d)>> ELSE d>>) * Num(FactorOf(d))
SpaceOf(d) ==
  LET u == IF IntLess(NListed, d) THEN RandomSpace(<<Seed, "dir", d>>) ELSE Listed[d]
      k == SizeOf(d)
      part(x) == IF SameNum(x, 0) THEN Num(0) ELSE Num(Dec(k * x, 17))
  IN IF d = 0 THEN <<0, 0, 0>> ELSE <<part(Num(u[1])), part(Num(u[2])), part(Num(u[3]))>>
MomOf(t) == LET x == SpaceOf(t[2]) IN Four(OnShellEnergy(MassOf(t[1]), x), x)

MassText(i) == Dec(MassOf(i), 20)
MomentumText(t) == LET p == MomOf(t) IN Dec(p[1], 30) \o " " \o Dec(p[2], 30) \o " " \o Dec(p[3], 30) \o " " \o Dec(p[4], 30)

\* Momenta that are not numbers.
NotNumbers == <<"nan 0 0 1", "1 nan 0 0", "5 0 inf 3", "inf inf 0 0", "3 0 0 -inf">>
=============================================================================
