-------------------------------- MODULE CNum --------------------------------
(***************************************************************************)
(* Real and complex numbers for the specification.                         *)
(*                                                                         *)
(* TLC has 32-bit integers only, so the operators below are defined here   *)
(* by their mathematical meaning over pairs of reals and evaluated by the  *)
(* Java class CNum (spec/java), which carries 42 significant digits -- far *)
(* beyond the 19 of the long doubles of the code under check.  A number    *)
(* may be written as an integer, as a decimal string ("1.25e-3"), or as    *)
(* the value of one of these operators.  The texts "nan" and "inf", which  *)
(* the code may print, are carried as non-numbers: every arithmetic        *)
(* operator returns a non-number for them and every comparison is FALSE.   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

LOCAL Over(what) == Assert(FALSE, <<"the Java evaluation of CNum is not on the class path", what>>)

\* Re(z), Im(z): the parts of a complex number.   Cx(x, y) = x + i*y
Cx(x, y)  == Over("Cx")
Re(z)     == Over("Re")
Im(z)     == Over("Im")
\* The number denoted by an integer, decimal string or number.
Num(x)    == Over("Num")
IsNum(x)  == Over("IsNum")

CAdd(a, b) == Over("CAdd")   \* <<a.re + b.re, a.im + b.im>>
CSub(a, b) == Over("CSub")   \* <<a.re - b.re, a.im - b.im>>
CMul(a, b) == Over("CMul")   \* <<a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re>>
CDiv(a, b) == Over("CDiv")   \* the c with CMul(c, b) = a
CNeg(a)    == Over("CNeg")   \* <<-a.re, -a.im>>
Conj(a)    == Over("Conj")   \* <<a.re, -a.im>>
AbsSq(a)   == Over("AbsSq")  \* a.re^2 + a.im^2
Sqrt(x)    == Over("Sqrt")   \* the r >= 0 with r*r = x, for real x >= 0
Cos(t)     == Over("Cos")
Sin(t)     == Over("Sin")
Less(x, y) == Over("Less")   \* x < y for reals
Leq(x, y)  == Over("Leq")
SameNum(x, y) == Over("SameNum")
\* |a - b| <= tol * scale
Close(a, b, scale, tol) == Over("Close")
\* Decimal text of a real to n significant digits.
Dec(x, n)  == Over("Dec")
\* A number in (0,1), and an integer in 1..n, determined by the value key.
Rnd(key) == Over("Rnd")
RndInt(key, n) == Over("RndInt")

\* Integer ranges and order, for modules that take + - * / from CField.
Range(m, n) == m .. n
IntLess(m, n) == m < n
IntDiv(m, n) == m \div n
IntMod(m, n) == m % n
=============================================================================
