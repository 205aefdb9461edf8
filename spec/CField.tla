------------------------------- MODULE CField -------------------------------
(***************************************************************************)
(* Infix arithmetic on real and complex numbers.  On two integers + - *    *)
(* stay integers; / always gives a number.  A module that extends this one *)
(* must not extend Naturals, Integers or Reals.                            *)
(***************************************************************************)
EXTENDS CNum

a + b == CAdd(a, b)
a - b == CSub(a, b)
a * b == CMul(a, b)
a / b == CDiv(a, b)
-. a  == CNeg(a)

I == Cx(0, 1)
Abs(z) == Sqrt(AbsSq(z))
Sq(z) == z * z
MaxNum(x, y) == IF Less(x, y) THEN y ELSE x

\* f(1) + ... + f(n)
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f(n)
=============================================================================
