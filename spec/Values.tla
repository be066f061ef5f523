------------------------------- MODULE Values -------------------------------
(* Argument completers.                                                      *)
(*                                                                           *)
(* Vals(c, t): the full argument texts offered for the completer c when the  *)
(* argument typed so far is t.  A completer is a record with a kind k:       *)
(*   none                    nothing                                         *)
(*   choices v / exec v      the words v                                     *)
(*   range a b s             the numbers a, a+s, ... up to b                 *)
(*   integer suf, float suf  a number typed, followed by one of the suffixes *)
(*   combine cs              the union of the completers cs                  *)
(*   prefix p c              the items of c behind the prefix p              *)
(*   value_list v sep dup, list c sep dup                                    *)
(*                           lists, completed behind the last separator      *)
(*   kvp vsep keys           one key[=value] pair                            *)
(*   kvl psep vsep keys      a list of key[=value] pairs;                    *)
(*                           key: [k, rep, arg, c, excl]                     *)
EXTENDS Str, Integers

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE RangeVals(_, _, _)
RangeVals(a, b, s) == IF (s > 0 /\ a > b) \/ (s < 0 /\ a < b) THEN {} ELSE {ToString(a)} \cup RangeVals(a + s, b, s)

\* Length of the (unsigned) number t starts with (0: none).
RECURSIVE DigitsFrom(_, _)
DigitsFrom(t, i) == IF i <= Len(t) /\ At(t, i) \in Digits THEN DigitsFrom(t, i + 1) ELSE i
NumLen(t, float) ==
  LET d == DigitsFrom(t, 1) IN
  IF d = 1 THEN 0
  ELSE IF float /\ d <= Len(t) /\ At(t, d) = "." /\ DigitsFrom(t, d + 1) > d + 1 THEN DigitsFrom(t, d + 1) - 1
  ELSE d - 1

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Before(t, ch) == LET i == Index(t, ch) IN IF i = 0 THEN t ELSE Upto(t, i - 1)
KeyOf(c, k) == CHOOSE x \in Range(c.keys) : x.k = k
HasKey(c, k) == \E x \in Range(c.keys) : x.k = k
\* keys that are no longer offered once the key u has been used
Bars(c, u) == IF HasKey(c, u) THEN Range(KeyOf(c, u).excl) \cup (IF KeyOf(c, u).rep THEN {} ELSE {u}) ELSE {}

RECURSIVE Vals(_, _)
Vals(c, t) ==
  CASE c.k = "choices" -> { v \in Range(c.v) : Pfx(t, v) }
    [] c.k = "exec" -> { v \in Range(c.v) : Pfx(t, v) }
    [] c.k = "none" -> {}
    [] c.k = "range" -> { v \in RangeVals(c.a, c.b, c.s) : Pfx(t, v) }
    [] c.k \in {"integer", "float"} ->
         LET n == NumLen(t, c.k = "float") IN
         IF n = 0 THEN {} ELSE { Upto(t, n) \o s : s \in { s \in Range(c.suf) : Pfx(From(t, n + 1), s) } }
    [] c.k = "combine" -> UNION { Vals(c.cs[i], t) : i \in DOMAIN c.cs }
    [] c.k = "prefix" -> IF Pfx(c.p, t) THEN { c.p \o v : v \in Vals(c.c, From(t, Len(c.p) + 1)) }
                         ELSE IF Pfx(t, c.p) THEN {c.p} ELSE {}
    [] c.k \in {"value_list", "list"} ->
         LET parts == SplitAt(t, c.sep)
             head  == Range(Front(parts))
             pre   == Upto(t, Len(t) - Len(Last(parts)))
             new   == IF c.k = "list" THEN Vals(c.c, Last(parts)) ELSE { v \in Range(c.v) : Pfx(Last(parts), v) } IN
         { pre \o v : v \in IF c.dup THEN new ELSE new \ head }
    [] c.k = "kvp" ->
         LET i == Index(t, c.vsep)
             k == Before(t, c.vsep) IN
         IF i = 0 THEN { x.k : x \in { x \in Range(c.keys) : Pfx(t, x.k) } }
         ELSE IF HasKey(c, k) /\ KeyOf(c, k).arg THEN { Upto(t, i) \o v : v \in Vals(KeyOf(c, k).c, From(t, i + 1)) } ELSE {}
    [] c.k = "kvl" ->
         LET parts == SplitAt(t, c.psep)
             used  == { Before(x, c.vsep) : x \in Range(Front(parts)) }
             last  == Last(parts)
             pre   == Upto(t, Len(t) - Len(last))
             i     == Index(last, c.vsep)
             k     == Before(last, c.vsep) IN
         IF i = 0 THEN { pre \o x.k : x \in { x \in Range(c.keys) : Pfx(last, x.k) /\ ~\E u \in used : x.k \in Bars(c, u) } }
         ELSE IF HasKey(c, k) /\ KeyOf(c, k).arg THEN { pre \o Upto(last, i) \o v : v \in Vals(KeyOf(c, k).c, From(last, i + 1)) } ELSE {}
    [] OTHER -> Assert(FALSE, <<"unknown completer", c>>)

\* Offered texts (a subset of Vals) behind which the value separator follows.
RECURSIVE WithSep(_, _)
WithSep(c, t) ==
  CASE c.k = "kvp" -> IF Index(t, c.vsep) # 0 THEN {} ELSE { v \in Vals(c, t) : KeyOf(c, v).arg }
    [] c.k = "kvl" ->
         LET last == Last(SplitAt(t, c.psep))
             pre  == Upto(t, Len(t) - Len(last)) IN
         IF Index(last, c.vsep) # 0 THEN {} ELSE { v \in Vals(c, t) : KeyOf(c, From(v, Len(pre) + 1)).arg }
    [] c.k = "prefix" -> IF Pfx(c.p, t) THEN { c.p \o v : v \in WithSep(c.c, From(t, Len(c.p) + 1)) } ELSE {}
    [] c.k = "combine" -> UNION { WithSep(c.cs[i], t) : i \in DOMAIN c.cs }
    [] OTHER -> {}
RECURSIVE SepOf(_)
SepOf(c) == CASE c.k \in {"kvp", "kvl"} -> c.vsep
              [] c.k = "prefix" -> SepOf(c.c)
              [] OTHER -> ""

\* Nothing is claimed: the element typed is already complete (bash goes on with the separator, fish offers
\* nothing, zsh offers it again).
RECURSIVE Complete(_, _)
RECURSIVE MayVals(_, _)
Complete(c, t) ==
  CASE c.k = "float" -> LET n == NumLen(t, TRUE) IN n > 0 /\ t = Upto(t, n) \o "."   \* a number typed half
    [] c.k \in {"value_list", "list"} ->
         LET last == Last(SplitAt(t, c.sep)) IN
         IF c.k = "list" THEN last \in Vals(c.c, last) \/ last \in MayVals(c.c, last) \/ Complete(c.c, last) ELSE last \in Range(c.v)
    [] c.k = "kvp" -> LET i == Index(t, c.vsep)
                          k == Before(t, c.vsep) IN
                      IF i = 0 THEN HasKey(c, t) ELSE HasKey(c, k) /\ KeyOf(c, k).arg /\ Complete(KeyOf(c, k).c, From(t, i + 1))
    [] c.k = "kvl" -> LET last == Last(SplitAt(t, c.psep))
                          i == Index(last, c.vsep)
                          k == Before(last, c.vsep) IN
                      IF i = 0 THEN HasKey(c, last) ELSE HasKey(c, k) /\ KeyOf(c, k).arg /\ Complete(KeyOf(c, k).c, From(last, i + 1))
    [] c.k = "prefix" -> IF Pfx(c.p, t) THEN Complete(c.c, From(t, Len(c.p) + 1)) ELSE FALSE
    [] c.k = "combine" -> \E i \in DOMAIN c.cs : Complete(c.cs[i], t)
    [] OTHER -> FALSE

\* The number itself may be offered besides the number with a suffix.
MayVals(c, t) ==
  CASE c.k \in {"integer", "float"} -> LET n == NumLen(t, c.k = "float") IN IF n = 0 THEN {} ELSE {Upto(t, n)}
    [] c.k = "prefix" -> IF Pfx(c.p, t) THEN { c.p \o v : v \in MayVals(c.c, From(t, Len(c.p) + 1)) } ELSE {}
    [] c.k = "combine" -> UNION { MayVals(c.cs[i], t) : i \in DOMAIN c.cs }
    [] c.k = "kvp" -> LET i == Index(t, c.vsep)
                          k == Before(t, c.vsep) IN
                      IF i = 0 \/ ~HasKey(c, k) THEN {} ELSE IF ~KeyOf(c, k).arg THEN {} ELSE { Upto(t, i) \o v : v \in MayVals(KeyOf(c, k).c, From(t, i + 1)) }
    [] c.k = "kvl" -> LET last == Last(SplitAt(t, c.psep))
                          pre == Upto(t, Len(t) - Len(last))
                          i == Index(last, c.vsep)
                          k == Before(last, c.vsep) IN
                      IF i = 0 \/ ~HasKey(c, k) THEN {} ELSE IF ~KeyOf(c, k).arg THEN {} ELSE { pre \o Upto(last, i) \o v : v \in MayVals(KeyOf(c, k).c, From(last, i + 1)) }
    [] OTHER -> {}

\* Texts left out because the list has the element already (list completers only).
RECURSIVE Dups(_, _)
Dups(c, t) ==
  CASE c.k = "list" -> IF c.dup THEN {} ELSE Vals([c EXCEPT !.dup = TRUE], t) \ Vals(c, t)
    [] c.k = "prefix" -> IF Pfx(c.p, t) THEN { c.p \o v : v \in Dups(c.c, From(t, Len(c.p) + 1)) } ELSE {}
    [] c.k = "combine" -> UNION { Dups(c.cs[i], t) : i \in DOMAIN c.cs }
    [] c.k = "kvp" -> LET i == Index(t, c.vsep)
                          k == Before(t, c.vsep) IN
                      IF i = 0 \/ ~HasKey(c, k) THEN {} ELSE IF ~KeyOf(c, k).arg THEN {} ELSE { Upto(t, i) \o v : v \in Dups(KeyOf(c, k).c, From(t, i + 1)) }
    [] c.k = "kvl" -> LET last == Last(SplitAt(t, c.psep))
                          pre == Upto(t, Len(t) - Len(last))
                          i == Index(last, c.vsep)
                          k == Before(last, c.vsep) IN
                      IF i = 0 \/ ~HasKey(c, k) THEN {} ELSE IF ~KeyOf(c, k).arg THEN {} ELSE { pre \o Upto(last, i) \o v : v \in Dups(KeyOf(c, k).c, From(last, i + 1)) }
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Argument texts a user may type (finitely many, for the exploration).      *)
RECURSIVE Few(_, _)
Few(S, n) == IF S = {} \/ n = 0 THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN {x} \cup Few(S \ {x}, n - 1)
RECURSIVE Texts(_)
Texts(c) ==
  CASE c.k \in {"choices", "exec"} -> Range(c.v)
    [] c.k = "none" -> {}
    [] c.k = "range" -> RangeVals(c.a, c.b, c.s)
    [] c.k \in {"integer", "float"} ->
         { n \o s : n \in {"7", "12"} \cup (IF c.k = "float" THEN {"1.5"} ELSE {}), s \in Range(c.suf) }
    [] c.k = "combine" -> UNION { Texts(c.cs[i]) : i \in DOMAIN c.cs }
    [] c.k = "prefix" -> { c.p \o v : v \in Texts(c.c) }
    [] c.k \in {"value_list", "list"} ->
         LET v == IF c.k = "list" THEN Few(Texts(c.c), 5) ELSE Range(c.v) IN
         { x \o c.sep \o y : x \in v, y \in v } \cup { x \o c.sep \o y \o c.sep \o z : x \in Few(v, 3), y \in v, z \in {"zz"} \cup v }
    [] c.k = "kvp" -> { x.k : x \in { x \in Range(c.keys) : ~x.arg } }
         \cup UNION { { x.k \o c.vsep \o v : v \in Few(Texts(x.c), 8) \cup {"q"} } : x \in { x \in Range(c.keys) : x.arg } }
    [] c.k = "kvl" ->
         LET p == { x.k : x \in { x \in Range(c.keys) : ~x.arg } }
                  \cup UNION { { x.k \o c.vsep \o v : v \in Few(Texts(x.c), 3) \cup {"q"} } : x \in { x \in Range(c.keys) : x.arg } } IN
         p \cup { x \o c.psep \o y : x \in Few(p, 6), y \in p }
    [] OTHER -> {}
=============================================================================
