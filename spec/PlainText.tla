----------------------------- MODULE PlainText ------------------------------
(***************************************************************************)
(* Reading the plain texts of vectors and matrices, which are for people:  *)
(* numbers with six digits, possibly with an exponent, in three layouts.   *)
(***************************************************************************)
EXTENDS CField, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Marks == {"{", "}", "(", ")", ",", "+", "*"}
Letters == {"e", "x", "p", "i", "I"}

\* End of a run of characters of a set that starts at i.
RECURSIVE EndRun(_, _, _)
EndRun(s, i, set) == IF IntLess(Len(s), i) \/ Ch(s, i) \notin set THEN i - 1 ELSE EndRun(s, i + 1, set)
\* End of the number that starts at i: a sign, digits with a dot, an exponent.
EndNumber(s, i) ==
  LET j == EndRun(s, i + 1, Digits \cup {"."})
  IN IF IntLess(j + 1, Len(s)) /\ Ch(s, j + 1) = "e" /\ Ch(s, j + 2) \in {"+", "-"} THEN EndRun(s, j + 3, Digits) ELSE j

\* Tokens: numbers "n", marks and words; any other character makes the text unreadable.
RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF IntLess(Len(s), i) THEN <<>>
  ELSE LET c == Ch(s, i) IN
    CASE c = " " -> Lex(s, i + 1)
      [] c \in Digits \cup {"-"} -> LET e == EndNumber(s, i) IN <<[t |-> "n", v |-> SubSeq(s, i, e)]>> \o Lex(s, e + 1)
      [] c \in Marks -> <<[t |-> c, v |-> ""]>> \o Lex(s, i + 1)
      [] c \in Letters -> LET e == EndRun(s, i, Letters) IN <<[t |-> SubSeq(s, i, e), v |-> ""]>> \o Lex(s, e + 1)
      [] OTHER -> <<[t |-> "bad", v |-> c]>>

Pair == <<"(", "n", ",", "n", ")">>
Polar == <<"n", "exp", "(", "i", "*", "n", ")">>
Entry == <<"n", "+", "I", "*", "n">>
Two(x) == <<"{">> \o x \o <<",">> \o x \o <<"}">>
Layouts == [pairs |-> Two(Pair), polar |-> Two(Polar), matrix |-> Two(Two(Entry))]

\* The numbers of a text in the given layout, in order; ok is FALSE when it is not laid out so.
Read(s, layout) ==
  LET ts == TLCEval(Lex(s, 1))
      ok == [k \in DOMAIN ts |-> ts[k].t] = Layouts[layout]
      ns == IF ok THEN SelectSeq(ts, LAMBDA x: x.t = "n") ELSE <<>>
  IN [ok |-> ok, list |-> TLCEval([k \in DOMAIN ns |-> Num(ns[k].v)])]
\* Six digits of a number.
Shows(got, want) == Close(got, want, Abs(want), "5.1e-6")
SinOf(t) == IF Less(Abs(t), "1e-10") THEN t - ((t * t * t) / 6) ELSE Sin(t)
\* A length and an angle show a complex number; the angle too has six digits, however small.
ShowsPolar(r, t, want) ==
  /\ Shows(r, Abs(want))
  /\ Leq(Abs(t), "3.1416")
  /\ SameNum(r, 0) \/ LET c == Re(want) / Abs(want)
                         s == Im(want) / Abs(want)
                     IN /\ Less(0, Cos(t) * c + SinOf(t) * s)
                        /\ Leq(Abs(Cos(t) * s - SinOf(t) * c), Num("5.1e-6") * Abs(t))
=============================================================================
