------------------------------- MODULE MText --------------------------------
(***************************************************************************)
(* Reading a text the way Mathematica does, as far as the library writes   *)
(* it: numbers without exponent letters, products written with a space or  *)
(* a star, powers, sums, the imaginary unit I, parentheses and lists.      *)
(***************************************************************************)
EXTENDS CField, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
NumChars == Digits \cup {"."}
Ops == {"+", "-", "*", "^", "(", ")", "{", "}", ","}

\* End of the number that starts at i: a run of digits and dots.
RECURSIVE EndNum(_, _)
EndNum(s, i) == IF IntLess(Len(s), i) \/ Ch(s, i) \notin NumChars THEN i - 1 ELSE EndNum(s, i + 1)

\* Tokens: numbers, operators, I; any other character makes the text unreadable ("bad").
RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF IntLess(Len(s), i) THEN <<[t |-> "end", v |-> ""]>>
  ELSE LET c == Ch(s, i) IN
    CASE c = " " -> Lex(s, i + 1)
      [] c \in NumChars -> LET e == EndNum(s, i) IN <<[t |-> "num", v |-> SubSeq(s, i, e)]>> \o Lex(s, e + 1)
      [] c \in Ops -> <<[t |-> c, v |-> ""]>> \o Lex(s, i + 1)
      [] c = "I" -> <<[t |-> "I", v |-> ""]>> \o Lex(s, i + 1)
      [] OTHER -> <<[t |-> "bad", v |-> c]>>

RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN 1 ELSE x * PowN(x, n - 1)
RECURSIVE CountTo(_, _)
CountTo(x, n) == IF SameNum(x, n) THEN n ELSE IF IntLess(5000, n) THEN 0 - 1 ELSE CountTo(x, n + 1)
RECURSIVE PowFast(_, _)
PowFast(x, n) == IF n = 0 THEN 1 ELSE LET h == PowFast(x, IntDiv(n, 2)) IN IF IntMod(n, 2) = 0 THEN h * h ELSE h * h * x
\* x^y for integer y
Power(x, y) == LET neg == Less(y, 0)
                   n == CountTo(IF neg THEN 0 - y ELSE y, 0)
               IN IF neg THEN Num(1) / PowFast(x, n) ELSE PowFast(x, n)

\* A parser returns the value read and the position after it; ok is FALSE when it fails.
Fail == [ok |-> FALSE, v |-> 0, k |-> 0, list |-> <<>>]
Val(v, k) == [ok |-> TRUE, v |-> v, k |-> k, list |-> <<>>]
Starts == {"num", "I", "("}
RECURSIVE Expr(_, _), Sum(_, _, _), Term(_, _), Prod(_, _, _), Factor(_, _), Pow(_, _), Atom(_, _)
Expr(ts, k) == LET a == Term(ts, k) IN IF a.ok THEN Sum(ts, a.v, a.k) ELSE Fail
Sum(ts, v, k) ==
  IF ts[k].t \notin {"+", "-"} THEN Val(v, k)
  ELSE LET b == Term(ts, k + 1) IN
       IF ~b.ok THEN Fail ELSE Sum(ts, IF ts[k].t = "+" THEN v + b.v ELSE v - b.v, b.k)
Term(ts, k) == LET a == Factor(ts, k) IN IF a.ok THEN Prod(ts, a.v, a.k) ELSE Fail
Prod(ts, v, k) ==
  IF ts[k].t = "*" THEN LET b == Factor(ts, k + 1) IN IF b.ok THEN Prod(ts, v * b.v, b.k) ELSE Fail
  ELSE IF ts[k].t \in Starts THEN LET b == Factor(ts, k) IN IF b.ok THEN Prod(ts, v * b.v, b.k) ELSE Fail
  ELSE Val(v, k)
Factor(ts, k) ==
  IF ts[k].t = "-" THEN LET b == Factor(ts, k + 1) IN IF b.ok THEN Val(0 - b.v, b.k) ELSE Fail
  ELSE IF ts[k].t = "+" THEN Factor(ts, k + 1)
  ELSE Pow(ts, k)
Pow(ts, k) ==
  LET a == Atom(ts, k) IN
  IF ~a.ok \/ ts[a.k].t # "^" THEN a
  ELSE LET b == Factor(ts, a.k + 1) IN IF b.ok THEN Val(Power(a.v, b.v), b.k) ELSE Fail
Atom(ts, k) ==
  CASE ts[k].t = "num" -> Val(Num(ts[k].v), k + 1)
    [] ts[k].t = "I" -> Val(I, k + 1)
    [] ts[k].t = "(" -> LET a == Expr(ts, k + 1) IN IF a.ok /\ ts[a.k].t = ")" THEN Val(a.v, a.k + 1) ELSE Fail
    [] OTHER -> Fail

\* The number a whole text denotes.
ReadNumber(s) == LET ts == TLCEval(Lex(s, 1))
                     a == Expr(ts, 1)
                 IN IF a.ok /\ ts[a.k].t = "end" THEN a ELSE Fail

\* A list of numbers { a , b , ... } starting at k: the numbers, and the position after it.
RECURSIVE Items(_, _, _)
Items(ts, k, got) ==
  LET a == Expr(ts, k) IN
  IF ~a.ok THEN Fail
  ELSE IF ts[a.k].t = "," THEN Items(ts, a.k + 1, Append(got, a.v))
  ELSE IF ts[a.k].t = "}" THEN [ok |-> TRUE, v |-> 0, k |-> a.k + 1, list |-> Append(got, a.v)]
  ELSE Fail
List(ts, k) == IF ts[k].t = "{" THEN Items(ts, k + 1, <<>>) ELSE Fail
ReadVector(s) == LET ts == TLCEval(Lex(s, 1))
                     a == List(ts, 1)
                 IN IF a.ok /\ ts[a.k].t = "end" THEN a ELSE Fail
\* A list of two lists.
ReadMatrix(s) ==
  LET ts == TLCEval(Lex(s, 1)) IN
  IF ts[1].t # "{" THEN Fail
  ELSE LET a == List(ts, 2) IN
       IF ~a.ok \/ ts[a.k].t # "," THEN Fail
       ELSE LET b == List(ts, a.k + 1) IN
            IF b.ok /\ ts[b.k].t = "}" /\ ts[b.k + 1].t = "end" THEN [b EXCEPT !.list = <<a.list, b.list>>] ELSE Fail
=============================================================================
