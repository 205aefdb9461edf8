------------------------------ MODULE GenCore -------------------------------
(***************************************************************************)
(* Generator of behaviours for propagators, registers, spin combinatorics, *)
(* rotations and boosts, the comparison harness, random generators and     *)
(* texts.  A plan is a sequence of step kinds; every step appends calls to *)
(* the script.  Numbers and random choices are determined by the seed, the *)
(* plan's name, the behaviour and the step.                                *)
(***************************************************************************)
EXTENDS Lorentz, TLC, Sequences, Json, IOUtils

Seed == IOEnv.SEED
All == IOEnv.MODE = "all"
Plan == TLCEval(JsonDeserialize(IOEnv.PLAN))
Count == TLCEval(JsonDeserialize(IOEnv.COUNT))

VARIABLES tid, k, hist
vars == <<tid, k, hist>>

Key(x) == <<Seed, IOEnv.NAME, tid, k, x>>
Nth(q, x) == q[RndInt(Key(x), Len(q))]
N(i) == ToString(i)
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Each(q, f(_)) == TLCEval([i \in DOMAIN q |-> f(q[i])])
FlatEach(q, f(_)) == TLCEval(Flat(Each(q, f)))
RECURSIVE Words(_)
Words(q) == IF Len(q) = 0 THEN "" ELSE " " \o q[1] \o Words(Tail(q))
Seq0(n) == [i \in Range(1, n) |-> i]

\* ---------------------------------------------------------------- numbers
Between(lo, hi, x) == Num(lo) + (Num(hi) - Num(lo)) * Rnd(Key(x))
Tens == <<"1e-12", "1e-9", "1e-6", "1e-4", "1e-3", "1e-2", "0.1", "1", "1", "1", "1", "10", "100", "1e3", "1e5", "1e8">>
Signed(x) == Between(-1, 1, <<x, "s">>)
\* A real of random sign and magnitude, one of ordinary size, and a special one.
Wide(x) == Signed(x) * Nth(Tens, <<x, "t">>)
Plain(x) == Between(-20, 20, <<x, "p">>)
Specials == <<"0", "1", "-1", "0.5", "2", "-3", "1e-5", "100", "-0.1">>
Real(x) == LET c == RndInt(Key(<<x, "c">>), 10) IN
           IF c = 1 THEN Num(Nth(Specials, <<x, "z">>)) ELSE IF IntLess(c, 5) THEN Wide(x) ELSE Plain(x)
D(x) == Dec(x, 24)
R(x) == D(Real(x))
C(x) == R(<<x, "re">>) \o " " \o R(<<x, "im">>)
NonZero(x) == LET r == Real(x) IN IF SameNum(r, 0) THEN "3" ELSE D(r)
Ints == <<"0", "1", "-1", "2", "-2", "3", "7", "-5", "11", "1000", "-37">>
NonZeroInts == <<"1", "-1", "2", "-2", "3", "7", "-5", "11", "1000", "-37">>

\* ------------------------------------------------------------ propagators
Slot(x) == N(RndInt(Key(x), 3))
Mass(x) == Nth(<<"0", D(Between(0, 200, x)), D(Between(0, 200, x)), D(Between("0.001", 2, x)), "80.4", "80.4", "91.1876", "91.1876", "0.000511", "3000">>, <<x, "m">>)
\* A width: none, tiny, ordinary, broad.
Width(x) == Nth(<<"0", D(Between("1e-9", "1e-5", x)), "0.004", "2.4952", "2.085", D(Between(0, 200, x)), D(Between(100, 2000, x))>>, <<x, "wd">>)
\* Momenta with a square that is exactly zero, one, or negative.
Exact == <<" 5 3 0 4", " -13 5 12 0", " 3 2 2 0", " 1 0 0 0", " 0 0 0 0", " 4 3 0 4", " 0 3 0 0", " 91.1876 0 0 0", " 80.4 0 0 0", " -91.1876 0 0 0">>
\* A momentum: general, at rest, on the mass shell of the propagator, space-like.
FourMom(x) ==
  LET v == <<Between(-90, 90, <<x, 1>>), Between(-90, 90, <<x, 2>>), Between(-90, 90, <<x, 3>>)>>
      what == RndInt(Key(<<x, "w">>), 6)
      size == Num(Nth(<<1, 1, 1, "0.00001", "0.01", "40">>, <<x, "size">>))
      e == IF what = 1 THEN Between(-200, 200, <<x, 0>>)
           ELSE IF what = 2 THEN Sqrt(Dot3(v, v))
           ELSE IF what = 3 THEN Between(0, 10, <<x, 0>>)
           ELSE Sqrt(Dot3(v, v) + Sq(Num(Mass(x))))
      at == IF what \in {1, 2, 3} THEN size ELSE Num(1)
  IN IF what = 6 THEN Nth(Exact, <<x, "exact">>) ELSE Words(<<D(at * e), D(at * v[1]), D(at * v[2]), D(at * v[3])>>)
GDen(s, x) == "gden " \o s \o FourMom(x)
\* One of two momenta of the behaviour, so that the same one is asked about again after a change.
GAgain(s, x) ==
  LET i == RndInt(Key(<<x, "often">>), 2)
      part(j) == D(Num(120) * Rnd(<<Seed, IOEnv.NAME, tid, "often", i, j>>) - 60)
  IN "gden " \o s \o Words(<<part(0), part(1), part(2), part(3)>>)
GAny(x) ==
  LET s == Slot(<<x, "s">>) IN
  Nth(<<"gnew " \o s \o " " \o Mass(<<x, "m">>) \o " " \o Width(<<x, "w">>), "gmass " \o s \o " " \o Mass(<<x, "m">>), "gwidth " \o s \o " " \o Width(<<x, "w">>),
        GDen(s, x), GDen(s, x), GAgain(s, x), GAgain(s, x), GAgain(s, x), "gcopy " \o s \o " " \o Slot(<<x, "f">>), "gassign " \o s \o " " \o Slot(<<x, "f">>)>>, <<x, "what">>)
GNews == "gnew 1;gnew 2 " \o Mass("m2") \o " " \o Width("w2") \o ";gnew 3 " \o Mass("m3") \o " " \o Width("w3")

\* -------------------------------------------------------------- registers
Regs == <<"0", "1", "2">>
MSet(r) == "alg mset " \o r \o " " \o C(<<r, 1>>) \o " " \o C(<<r, 2>>) \o " " \o C(<<r, 3>>) \o " " \o C(<<r, 4>>)
VSet(r) == "alg vset " \o r \o " " \o C(<<"v", r, 1>>) \o " " \o C(<<"v", r, 2>>)
VArr(r) == "alg varr " \o r \o " " \o C(<<"v", r, 1>>) \o " " \o C(<<"v", r, 2>>)
MMom(r, ul) == "alg mmom " \o r \o " " \o ul \o FourMom(<<"mm", r>>)
\* A hermitian matrix, a matrix with real determinant, and matrices that differ little.
MHerm(r) == LET a == C(<<"h", r>>) IN
  "alg mset " \o r \o " " \o R(<<"h", r, 1>>) \o " 0 " \o R(<<"h", r, 2>>) \o " " \o R(<<"h", r, 3>>) \o " " \o R(<<"h", r, 2>>) \o " " \o D(0 - Real(<<"h", r, 3>>)) \o " " \o R(<<"h", r, 4>>) \o " 0"
LoadAll == MSet("0") \o ";" \o MSet("1") \o ";" \o MSet("2") \o ";" \o VSet("0") \o ";" \o VArr("1") \o ";" \o VSet("2")
LoadMom == MMom("0", "U") \o ";" \o MMom("1", "L") \o ";" \o MHerm("2") \o ";" \o VSet("0") \o ";" \o VSet("1") \o ";" \o VArr("2")
Bin3(f) == FlatEach(Regs, LAMBDA d: FlatEach(Regs, LAMBDA a: Each(Regs, LAMBDA b: "alg " \o f \o " " \o d \o " " \o a \o " " \o b)))
Bin2(f) == FlatEach(Regs, LAMBDA a: Each(Regs, LAMBDA b: "alg " \o f \o " " \o a \o " " \o b))
Un(f) == Each(Regs, LAMBDA a: "alg " \o f \o " " \o a)
Scalar(ty, x, over) == IF ty = "c" THEN NonZero(<<x, "r">>) \o " " \o R(<<x, "i">>) ELSE IF ty = "l" THEN (IF over THEN NonZero(x) ELSE R(x)) ELSE IF over THEN Nth(NonZeroInts, x) ELSE Nth(Ints, x)
Scal(f, over) == FlatEach(<<"c", "l", "i">>, LAMBDA ty: FlatEach(Regs, LAMBDA d: Each(Regs, LAMBDA a: "alg " \o f \o " " \o ty \o " " \o d \o " " \o a \o " " \o Scalar(ty, <<f, ty, d, a>>, over))))
Indices == <<"-1", "0", "1", "2", "3", "-2", "100">>
Gets == FlatEach(Regs, LAMBDA a: FlatEach(Indices, LAMBDA i: <<"alg vget " \o a \o " " \o i>> \o Each(Indices, LAMBDA j: "alg mget " \o a \o " " \o i \o " " \o j)))
AlgOps ==
  FlatEach(<<"m+", "m-", "m*", "vm", "mv", "outer">>, LAMBDA f: Bin3(f))
  \o FlatEach(<<"m+=", "m-=", "m*=", "mneg", "vneg", "vconj", "vv", "meq", "veq">>, LAMBDA f: Bin2(f))
  \o FlatEach(<<"det", "fdet", "mzero", "vzero">>, LAMBDA f: Un(f))
  \o FlatEach(<<"ms", "sm", "vs", "sv", "ms=">>, LAMBDA f: Scal(f, FALSE))
  \o FlatEach(<<"m/s", "m/s=">>, LAMBDA f: Scal(f, TRUE))
\* A nudge of one register against another: copies it and adds a small difference.
Nudge(e) == LET i == RndInt(Key("ni"), 4)
                z(j) == IF i = j THEN Nth(<<e \o " 0", "0 " \o e, "-" \o e \o " 0", "0 -" \o e>>, "nz") ELSE "0 0"
            IN "alg mset 1 " \o z(1) \o " " \o z(2) \o " " \o z(3) \o " " \o z(4) \o ";alg m+ 1 0 1;alg meq 0 1;alg meq 1 0"
NudgeV(e) == LET i == RndInt(Key("nvi"), 2)
                 a(j) == Between(-2, 2, <<"nva", j>>)
                 b(j) == Between(-2, 2, <<"nvb", j>>)
                 im == RndInt(Key("nvim"), 2)
                 re(j) == IF i = j /\ im = 1 THEN D(Num(Dec(a(j), 18)) + Num(e)) ELSE Dec(a(j), 18)
                 jm(j) == IF i = j /\ im = 2 THEN D(Num(Dec(b(j), 18)) + Num(e)) ELSE Dec(b(j), 18)
             IN "alg vset 0 " \o Dec(a(1), 18) \o " " \o Dec(b(1), 18) \o " " \o Dec(a(2), 18) \o " " \o Dec(b(2), 18)
                \o ";alg varr 1 " \o re(1) \o " " \o jm(1) \o " " \o re(2) \o " " \o jm(2) \o ";alg veq 0 1;alg veq 1 0"
\* A determinant with a small imaginary part, from one entry of a matrix that is real otherwise.
AlmostReal(e) == LET i == RndInt(Key(<<"ar", e>>), 4)
                     z(j) == D(Between(1, 3, <<"ar", e, j>>)) \o " " \o (IF i = j THEN Nth(<<e, "-" \o e>>, <<"ars", e>>) ELSE "0")
                 IN "alg mset 1 " \o z(1) \o " " \o z(2) \o " " \o z(3) \o " " \o z(4) \o ";alg det 1;alg fdet 1"
Nudges == <<"1e-16", "1e-10", "1e-7", "1", "1e3", "3e-15", "5e-11">>

\* ------------------------------------------------------ spin combinatorics
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN <<"">> ELSE FlatEach(Lists(n - 1), LAMBDA q: <<q \o " -2", q \o " 0", q \o " 2">>)
SpinCalls(ns) == FlatEach(ns, LAMBDA n: Each(Lists(n), LAMBDA q: "spin" \o q))
LongList == "spin" \o Words(Each(Seq0(6 + RndInt(Key("ll"), 4)), LAMBDA i: Nth(<<"-2", "0", "2", "0">>, <<"l", i>>)))

\* ----------------------------------------------------- rotations and boosts
AxisList == <<<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<"0.6", "0.8", 0>>, <<0, "-0.6", "0.8">>, <<"0.8", 0, "-0.6">>>>
Axis(x) == LET c == RndInt(Key(<<x, "ax">>), 2) IN
           IF c = 1 THEN Nth(AxisList, <<x, "al">>) ELSE Unit3(<<Between(-1, 1, <<x, "x">>), Between(-1, 1, <<x, "y">>), Between(-1, 1, <<x, "z">>)>>)
Angles == <<"0", "1", "-1", "3.1", "-3.1", "3.5", "4.7", "6.2", "6.4", "-4", "9", "-9.5", "1.5707963267948966192", "3.1415926535897932385", "6.2831853071795864769", "4.712388980384689858", "-1.5707963267948966192", "1e-6", "-1e-9", "30">>
V3(u) == Words(<<D(Num(u[1])), D(Num(u[2])), D(Num(u[3]))>>)
MomList == <<" 1 0 0 0", " 0 0 0 0", " 5 0 0 5", " 5 0 0 -5", " 5 3 4 0", " 0 1 2 3", " -7 1 2 3", " 100 99 0 0", " 3 0 3 0">>
AnyMom(x) == IF RndInt(Key(<<x, "ml">>), 3) = 1 THEN Nth(MomList, x) ELSE FourMom(x)
Rot(a, x) == "rot" \o AnyMom(x) \o V3(Axis(x)) \o " " \o a
Speeds == <<"0", "1e-12", "1e-8", "1e-5", "1e-3", "0.1", "0.5", "0.9", "0.99", "0.999", "0.99999", "0.9999999">>
BoostC(v, x) == "boost" \o AnyMom(x) \o V3(Scale3(Num(v), Axis(x)))

\* ---------------------------------------------------------------- harness
HMass(x) == Nth(<<"0", "0", D(Between("0.1", 5, x)), D(Between(1, 100, x)), D(Between(50, 200, x)), "0.000511">>, <<x, "hm">>)
\* Masses and incoming momentum with the final state above threshold.
HPoint(x) ==
  LET m == Each(Seq0(4), LAMBDA i: HMass(<<x, i>>))
      need == Num(m[3]) + Num(m[4])
      pin == need * Between("0.6", 3, <<x, "pin">>) + Between("0.5", 200, <<x, "pin0">>)
  IN Words(m) \o " " \o D(pin)
HInit(x) == "hinit" \o HPoint(x)
HMom(x) == "hmom" \o Words(Each(Seq0(6), LAMBDA i: D(Between(0, 300, <<x, i>>)))) \o " " \o Nth(<<"1", "-1", "0", "0.95", "-0.95", D(Between(-1, 1, <<x, "c">>)), D(Between(-1, 1, <<x, "c">>))>>, <<x, "cc">>)
Massive4(x) == LET v == <<Between(-90, 90, <<x, 1>>), Between(-90, 90, <<x, 2>>), Between(-90, 90, <<x, 3>>)>>
               IN Words(<<D(Sqrt(Dot3(v, v) + Sq(Num(Mass(x))))), D(v[1]), D(v[2]), D(v[3])>>)
HMove(op, x) == op \o Massive4(<<x, 1>>) \o Massive4(<<x, 2>>) \o Massive4(<<x, 3>>) \o Massive4(<<x, 4>>)
Data(x) == Words(Each(Seq0(20), LAMBDA i: Nth(<<D(Between("0.01", 9, <<x, i>>)), D(Between("0.01", 9, <<x, i>>)), D(Between("1e-7", "1e-3", <<x, i>>)), D(Between(1, 1000, <<x, i>>) * "1e6")>>, <<x, i, "d">>)))
DataZero(x) == Words(Each(Seq0(20), LAMBDA i: Nth(<<"0", D(Between("0.01", 9, <<x, i>>)), "1e-17">>, <<x, i, "d">>)))
\* Small references, far above what counts as zero.
DataSmall(x) == Words(Each(Seq0(20), LAMBDA i: D(Between(2, 9, <<x, i>>) * Nth(<<"1e-13", "1e-12", "1e-11">>, <<x, i, "d">>))))
\* Few different references, so that an answer wrong for its own place is right for another.
DataTwo(x) == Words(Each(Seq0(20), LAMBDA i: Nth(<<"0.25", "0.75">>, <<x, i, "d">>)))
DataOdd(x) == LET at == RndInt(Key(<<x, "odd">>), 20) IN Words(Each(Seq0(20), LAMBDA i: IF i = at THEN "0.75" ELSE "0.25"))
\* Answers: exact, slightly off (to be tolerated), clearly off (to be counted), not numbers.
Good == <<"*1", "*1.00000000001", "*0.99999999995">>
Wrong == <<"*1.0000001", "*0.9999999", "*1.5", "*0.5", "neg", "*1.000001", "+1", "*0">>
NaNs == <<"nan", "inf", "-inf">>
Codes(x, q) == LET n == Nth(<<1, 7, 13, 20>>, <<x, "nc">>) IN N(n) \o Words(Each(Seq0(n), LAMBDA i: Nth(q, <<x, i, "code">>)))
\* Most answers right, with exactly one wrong one somewhere among n.
OneWrong(x, n, bad) == LET at == RndInt(Key(<<x, "at">>), n) IN N(n) \o Words(Each(Seq0(n), LAMBDA i: IF i = at THEN Nth(bad, <<x, "bad">>) ELSE Nth(Good, <<x, i>>)))
HRuns ==
  FlatEach(<<"plain", "rot", "boost", "both", "score">>, LAMBDA v:
    Each(<<Codes("good", Good), Codes("mix", Good \o Wrong), Codes("nan", Good \o NaNs), Codes("bad", Wrong),
           OneWrong("one", 20, Wrong), OneWrong("onenan", 20, NaNs), OneWrong("one200", 200, Wrong)>>, LAMBDA c:
      "hrun " \o v \o HPoint(<<v, c>>) \o Data(<<v, c>>) \o " " \o c)
    \o <<"hrun " \o v \o HPoint(<<v, "z">>) \o DataZero(<<v, "z">>) \o " 1 *1", "hrun " \o v \o HPoint(<<v, "y">>) \o DataZero(<<v, "y">>) \o " 3 *1 =0.25 *1",
      "hrun " \o v \o HPoint(<<v, "s">>) \o DataSmall(<<v, "s">>) \o " " \o Codes("small", <<"*1", "*1.5", "*0.5", "*0", "neg", "*1">>),
      "hrun " \o v \o HPoint(<<v, "t">>) \o DataTwo(<<v, "t">>) \o " 1 =0.25",
      "hrun " \o v \o HPoint(<<v, "o">>) \o DataOdd(<<v, "o">>) \o " 1 =0.25">>)

\* ----------------------------------------------------------------- random
Ranges == <<"-5 5", "0 1", "0 100", "-1 1", "2 7", "-50 -10", "-0.001 0.001", "1e4 1e5">>
IntRanges == <<"-5 5", "0 1", "1 6", "-3 -1", "4 4", "0 20">>
Rnds == FlatEach(<<"real", "cpl">>, LAMBDA f: Each(Ranges, LAMBDA r: "rnd " \o f \o " " \o r \o " 500"))
        \o FlatEach(<<"mom", "massless">>, LAMBDA f: Each(<<"-5 5", "0 1", "0 100", "-1 1", "2 7", "-50 10", "-0.001 0.001", "-1000 1000">>, LAMBDA r: "rnd " \o f \o " " \o r \o " 500"))
        \o Each(IntRanges, LAMBDA r: "rnd int " \o r \o " 800")

\* ------------------------------------------------------------------ texts
TextNumbers == <<"0", "1", "-1", "10", "0.1", "-0.5", "1e-4", "1e-5", "-1e-5", "1.5e-5", "123456", "1e6", "-1e7", "1e15", "1e18", "1e19", "1e20", "-1e20", "123456789012345678", "1.234567890123456789e19",
                "1e100", "-1e-100", "3.3e300", "3.3e-300", "0.1234567890123456789", "99999.99999", "1e-4000", "7e4000", "999999999999999999", "0.00012345", "0.000099999999999999999999">>
RText(x) == LET c == RndInt(Key(<<x, "tc">>), 3) IN
            IF c = 1 THEN Nth(TextNumbers, x) ELSE IF c = 2 THEN D(Signed(x) * Nth(Tens \o <<"1e12", "1e17", "1e20", "1e40", "1e-30">>, <<x, "tt">>)) ELSE D(Plain(x))
CText(x) == RText(<<x, 1>>) \o " " \o RText(<<x, 2>>)

VText(f) == "vtext " \o f \o " " \o CText(<<f, "a">>) \o " " \o CText(<<f, "b">>)
MTextOf(f) == "mtext " \o f \o " " \o CText(<<f, "a">>) \o " " \o CText(<<f, "b">>) \o " " \o CText(<<f, "c">>) \o " " \o CText(<<f, "d">>)

\* ------------------------------------------------------------------- plan
Steps(kind) ==
  CASE kind = "gnews" -> <<GNews>>
    [] kind = "gany" -> <<GAny("g")>>
    [] kind = "gdens" -> <<GDen("1", "a") \o ";" \o GDen("2", "b") \o ";" \o GDen("3", "c")>>
    [] kind = "loadall" -> <<LoadAll>>
    [] kind = "loadmom" -> <<LoadMom>>
    [] kind = "load" -> IF RndInt(Key("load"), 2) = 1 THEN <<LoadAll>> ELSE <<LoadMom>>
    [] kind = "alg" -> AlgOps
    [] kind = "gets" -> Gets
    [] kind = "dets" -> <<"alg det 0;alg fdet 0;alg det 1;alg fdet 1;alg det 2;alg fdet 2">>
    [] kind = "almost" -> Each(<<"5e-11", "1e-9", "1e-8", "1e-7", "1e-5", "1e-3", "1e-15", "0">>, LAMBDA e: AlmostReal(e))
    [] kind = "nudge" -> Each(Nudges, LAMBDA e: Nudge(e)) \o Each(Nudges, LAMBDA e: NudgeV(e))
    [] kind = "spins" -> SpinCalls(<<0, 1, 2, 3, 4, 5, 6>>)
    [] kind = "spinslong" -> <<LongList>>
    [] kind = "spins7" -> SpinCalls(<<7>>)
    [] kind = "spins8" -> SpinCalls(<<8>>)
    [] kind = "rots" -> Each(Angles, LAMBDA a: Rot(a, <<"rot", a>>))
    [] kind = "boosts" -> Each(Speeds, LAMBDA v: BoostC(v, <<"boost", v>>))
    [] kind = "hinit" -> <<HInit("hi")>>
    [] kind = "hmom" -> <<HMom("hm")>>
    [] kind = "hmove" -> <<HMove("hrot", "hr"), HMove("hboost", "hb")>>
    [] kind = "hruns" -> HRuns
    [] kind = "rnds" -> Rnds
    [] kind = "mstrs" -> Each(TextNumbers, LAMBDA x: "mstr " \o x)
    [] kind = "mstr" -> <<"mstr " \o RText("m")>>
    [] kind = "vmstr" -> <<"vmstr " \o CText("a") \o " " \o CText("b")>>
    [] kind = "texts" -> Each(<<"plain", "pairs", "polar", "stream">>, LAMBDA f: VText(f)) \o Each(<<"plain", "stream">>, LAMBDA f: MTextOf(f))
    [] kind = "mmstr" -> <<"mmstr " \o CText("a") \o " " \o CText("b") \o " " \o CText("c") \o " " \o CText("d")>>

Init ==
  /\ tid \in Range(1, Count)
  /\ k = 1
  /\ hist = "reset"
Take(c) ==
  /\ tid' = tid
  /\ k' = k + 1
  /\ hist' = hist \o ";" \o c
  /\ k = Len(Plan) => PrintT("SCRIPT " \o hist')
Next ==
  /\ ~IntLess(Len(Plan), k)
  /\ LET steps == TLCEval(Steps(Plan[k])) IN
     IF All THEN \E i \in DOMAIN steps : Take(steps[i]) ELSE Take(Nth(steps, "step"))
Spec == Init /\ [][Next]_vars
=============================================================================
