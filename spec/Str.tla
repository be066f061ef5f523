-------------------------------- MODULE Str --------------------------------
(* Strings as TLC sees them: Len, SubSeq and \o work on character strings.   *)
EXTENDS Naturals, Sequences, TLC, FiniteSets

At(s, i)     == SubSeq(s, i, i)
Upto(s, i)   == IF i >= Len(s) THEN s ELSE SubSeq(s, 1, i)
From(s, i)   == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Pfx(p, s)    == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Sfx(p, s)    == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Range(f)     == { f[i] : i \in DOMAIN f }

\* Position of the first / last occurrence of the one-character string ch, or 0.
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = ch THEN i ELSE IndexFrom(s, ch, i + 1)
Index(s, ch) == IndexFrom(s, ch, 1)
RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, ch, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = ch THEN i ELSE LastIndexFrom(s, ch, i - 1)
LastIndex(s, ch) == LastIndexFrom(s, ch, Len(s))

\* Split at every ch (a one-character string): "a,b," -> <<"a", "b", "">>
RECURSIVE SplitAt(_, _)
SplitAt(s, ch) == LET i == Index(s, ch) IN
                  IF i = 0 THEN <<s>> ELSE <<Upto(s, i - 1)>> \o SplitAt(From(s, i + 1), ch)

RECURSIVE Concat(_)
Concat(ss) == IF Len(ss) = 0 THEN "" ELSE ss[1] \o Concat(Tail(ss))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowC(ch) == LET i == Index(UpperCase, ch) IN IF i = 0 THEN ch ELSE At(LowerCase, i)
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowC(At(s, 1)) \o Lower(From(s, 2))

Prefixes(s) == { Upto(s, i) : i \in 0..Len(s) }

\* Set of strings / sequence helpers
Filter(ss, P(_)) == SelectSeq(ss, P)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
