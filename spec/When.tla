-------------------------------- MODULE When --------------------------------
(* The language of `when`: tokens, grammar, meaning.  A verdict is 0 (must   *)
(* be accepted), 1 (not documented) or 2 (must be rejected).                 *)
EXTENDS Str
CONSTANT Known(_)     \* are these strings all strings of options that the command has?

Blank(c) == c \in {" ", "\t", "\n"}
Worse(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Tokens.  Words are written as in the shell: '...' is literal, in "..." the*)
(* backslash quotes the next character, pieces are joined.                   *)

\* Inside "...": [s, i, u, e] from position i
RECURSIVE DQ(_, _, _, _)
DQ(s, i, w, u) ==
  IF i > Len(s) THEN [s |-> w, i |-> i, u |-> u, e |-> TRUE]
  ELSE LET c == At(s, i) IN
    IF c = "\"" THEN [s |-> w, i |-> i + 1, u |-> u, e |-> FALSE]
    ELSE IF c = "\\" THEN IF i = Len(s) THEN [s |-> w, i |-> i + 1, u |-> u, e |-> TRUE]
                          ELSE DQ(s, i + 2, w \o At(s, i + 1), IF At(s, i + 1) \in {"\"", "\\", "$", "`"} THEN u ELSE 1)
    ELSE DQ(s, i + 1, w \o c, u)

RECURSIVE LexWord(_, _, _, _)
LexWord(s, i, w, u) ==
  IF i > Len(s) THEN [s |-> w, i |-> i, u |-> u, e |-> FALSE]
  ELSE LET c == At(s, i) IN
    CASE c = "'"  -> LET j == IndexFrom(s, "'", i + 1) IN
                     IF j = 0 THEN [s |-> w, i |-> i, u |-> u, e |-> TRUE] ELSE LexWord(s, j + 1, w \o SubSeq(s, i + 1, j - 1), u)
      [] c = "\"" -> LET r == DQ(s, i + 1, w, u) IN IF r.e THEN r ELSE LexWord(s, r.i, r.s, r.u)
      [] c \in {"&", "|", "!", "(", ")"} \/ Blank(c) -> [s |-> w, i |-> i, u |-> u, e |-> FALSE]
      [] c = "\\" -> LexWord(s, i + 1, w \o c, 1)
      [] OTHER    -> LexWord(s, i + 1, w \o c, u)

Op(t)   == [k |-> "op", s |-> t, u |-> 0]
Word(t, u) == [k |-> "word", s |-> t, u |-> u]
Err     == << [k |-> "err", s |-> "", u |-> 2] >>
RECURSIVE Lex(_, _)
Lex(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == At(s, i)
           d == IF i < Len(s) THEN At(s, i + 1) ELSE "" IN
    CASE Blank(c) -> Lex(s, i + 1)
      [] c = "!" /\ d = "=" -> <<Word("!=", 0)>> \o Lex(s, i + 2)
      [] c \in {"!", "(", ")"} -> <<Op(c)>> \o Lex(s, i + 1)
      [] c \in {"&", "|"} -> IF d = c THEN <<Op(c \o c)>> \o Lex(s, i + 2) ELSE Err
      [] OTHER -> LET w == LexWord(s, i, "", 0) IN IF w.e THEN Err ELSE <<Word(w.s, w.u)>> \o Lex(s, w.i)

-----------------------------------------------------------------------------
(* Commands                                                                  *)

Digits(s)  == s # "" /\ \A i \in 1..Len(s) : At(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0 ELSE 10 * Num(Upto(s, Len(s) - 1)) + Index("0123456789", At(s, Len(s))) - 1
Optish(s)  == Pfx("-", s) /\ Len(s) > 1 /\ s # "--" /\ \A i \in 1..Len(s) : ~Blank(At(s, i)) /\ At(s, i) # ","
Integer(s) == IF Digits(s) THEN 0
              ELSE IF s # "" /\ \A i \in 1..Len(s) : At(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "-", "_", " "} THEN 1 ELSE 2
Plain(s)   == \A i \in 1..Len(s) : Index("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.^$ =:", At(s, i)) > 0
Regex(s)   == IF s = "" THEN 2 ELSE IF Plain(s) THEN 0 ELSE IF s \in {"(", "[", "a(", "[a"} THEN 2 ELSE 1

Words(ws) == [ i \in DOMAIN ws |-> ws[i].s ]
\* Leading keywords of option_is, option_match
RECURSIVE Mods(_)
Mods(ws) == IF ws # <<>> /\ Lower(Head(ws)) \in {"nocase", "any"} THEN <<Head(ws)>> \o Mods(Tail(ws)) ELSE <<>>
Split2(ws) == LET i == CHOOSE i \in 1..Len(ws) + 1 : (i > Len(ws) \/ ws[i] = "--") /\ \A j \in 1..i - 1 : ws[j] # "--" IN
              [ o |-> SubSeq(ws, 1, i - 1), v |-> SubSeq(ws, IF i > Len(ws) THEN i ELSE i + 1, Len(ws)) ]
AllOptish(os) == \A i \in DOMAIN os : Optish(os[i])

CmdVerdict(w) ==
  LET c == w[1]  a == Tail(w) IN
  CASE c = "has_option" -> IF a = <<>> THEN 2 ELSE IF Known(a) THEN 0 ELSE 1
    [] c \in {"option_is", "option_match"} ->
         LET m == Mods(a)
             r == Split2(SubSeq(a, Len(m) + 1, Len(a)))
             u == IF \A i \in DOMAIN m : m[i] \in {"nocase", "any"} THEN 0 ELSE 1 IN
         IF r.o = <<>> \/ r.v = <<>> \/ ~AllOptish(r.o) THEN 2
         ELSE IF c = "option_is" THEN Worse(u, IF Known(r.o) THEN 0 ELSE 1) ELSE IF Len(r.v) # 1 THEN 2 ELSE Worse(IF Known(r.o) THEN u ELSE 1, Regex(r.v[1]))
    [] c = "positional_count" ->
         IF Len(a) # 2 \/ a[1] \notin {"==", "!=", "<=", ">=", "<", ">"} THEN 2 ELSE Integer(a[2])
    [] c = "positional_contains" ->
         LET b == IF a # <<>> /\ a[1] = "-i" THEN Tail(a) ELSE a IN
         IF Len(b) < 2 THEN 2 ELSE IF Integer(b[1]) = 0 /\ Num(b[1]) = 0 THEN 1 ELSE Integer(b[1])
    [] OTHER -> 2

\* Meaning on a command line x = [has: strings of the given options, vals: <<option string, value>>, pos: words]
Eq(a, b, nocase) == IF nocase THEN Lower(a) = Lower(b) ELSE a = b
CmdTrue(w, x) ==
  LET c == w[1]  a == Tail(w) IN
  CASE c = "has_option" -> \E i \in DOMAIN a : a[i] \in x.has
    [] c = "option_is" -> LET m == Mods(a)  r == Split2(SubSeq(a, Len(m) + 1, Len(a))) IN
                          \E i \in DOMAIN r.o, j \in DOMAIN r.v, v \in x.vals : v[1] = r.o[i] /\ Eq(v[2], r.v[j], m # <<>>)
    [] c = "positional_count" -> LET n == Len(x.pos)  k == Num(a[2]) IN
         CASE a[1] = "==" -> n = k [] a[1] = "!=" -> n # k [] a[1] = "<=" -> n <= k [] a[1] = ">=" -> n >= k [] a[1] = "<" -> n < k [] OTHER -> n > k
    [] c = "positional_contains" ->
         LET ic == a[1] = "-i"  b == IF ic THEN Tail(a) ELSE a  n == Num(b[1]) IN
         n <= Len(x.pos) /\ \E j \in 2..Len(b) : Eq(x.pos[n], b[j], ic)
    [] OTHER -> FALSE
\* Not documented, or the concern of another check
CmdUnclear(w) == w[1] = "option_match" \/ (w[1] = "positional_contains" /\ "" \in Range(w)) \/ (w[1] = "option_is" /\ \E i \in DOMAIN Mods(Tail(w)) : Mods(Tail(w))[i] # "nocase")

-----------------------------------------------------------------------------
(* Expr ::= Term { ("&&" | "||") Term }    Term ::= "!" Term | "(" Expr ")" | Command     *)
(* && and || bind equally and group to the left.  Results: [e verdict, i next token,      *)
(* v the value on the command line x, u whether the value is unclear]                     *)

Fail == [e |-> 2, i |-> 0, v |-> FALSE, u |-> TRUE]
RECURSIVE Run(_, _)      \* the end of the words that begin at token i
Run(t, i) == IF i > Len(t) \/ t[i].k # "word" THEN i ELSE Run(t, i + 1)
RECURSIVE Expr(_, _, _), Term(_, _, _), More(_, _, _)
Term(t, i, x) ==
  IF i > Len(t) \/ t[i].k = "err" THEN Fail
  ELSE IF t[i].k = "word"
       THEN LET j == Run(t, i)
                w == [ n \in 1..j - i |-> t[i + n - 1].s ]
                d == CmdVerdict(w) IN
            IF d = 2 THEN Fail
            ELSE [ e |-> Worse(d, IF \E n \in i..j - 1 : t[n].u > 0 THEN 1 ELSE 0), i |-> j, v |-> d = 0 /\ CmdTrue(w, x), u |-> d = 1 \/ CmdUnclear(w) ]
       ELSE IF t[i].s = "!" THEN LET r == Term(t, i + 1, x) IN IF r.e = 2 THEN Fail ELSE [ r EXCEPT !.v = ~r.v ]
       ELSE IF t[i].s = "(" THEN LET r == Expr(t, i + 1, x) IN
              IF r.e = 2 \/ r.i > Len(t) THEN Fail ELSE IF t[r.i].k = "op" /\ t[r.i].s = ")" THEN [ r EXCEPT !.i = r.i + 1 ] ELSE Fail
       ELSE Fail
More(t, l, x) ==
  IF l.e = 2 \/ l.i > Len(t) \/ t[l.i].k # "op" \/ t[l.i].s \notin {"&&", "||"} THEN l
  ELSE LET r == Term(t, l.i + 1, x) IN
       IF r.e = 2 THEN Fail
       ELSE More(t, [ e |-> Worse(l.e, r.e), i |-> r.i, v |-> IF t[l.i].s = "&&" THEN l.v /\ r.v ELSE l.v \/ r.v, u |-> l.u \/ r.u ], x)
Expr(t, i, x) == More(t, Term(t, i, x), x)

NoLine == [has |-> {}, vals |-> {}, pos |-> <<>>]
Whole(s, x) == LET t == Lex(s, 1)
                   r == Expr(t, 1, x) IN
               IF (\E i \in DOMAIN t : t[i].k = "err") \/ r.e = 2 \/ r.i <= Len(t) THEN Fail ELSE r
Verdict(s) == Whole(s, NoLine).e
Clear(s)   == LET r == Whole(s, NoLine) IN r.e = 0 /\ ~r.u
Holds(s, x) == Whole(s, x).v
=============================================================================
