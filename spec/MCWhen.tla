------------------------------- MODULE MCWhen -------------------------------
(* Strings of the `when` language and around it: pieces appended (explored   *)
(* exhaustively) or characters changed (simulated).                          *)
EXTENDS Str, Json, IOUtils
CONSTANTS EmitFile
In == JsonDeserialize(IOEnv.CC_WHEN)     \* [base, pieces, sep, max, chars, lines]
Known(os) == \A i \in DOMAIN os : os[i] \in Range(In.opts)
INSTANCE When
VARIABLES str, n
vars == <<str, n>>

Init == n = 0 /\ str \in Range(In.base)
Append1 == \E p \in Range(In.pieces) : str' = (IF str = "" THEN p ELSE str \o In.sep \o p) /\ n' = n + 1
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Change ==
  \E i \in Pick(1..Len(str) + 1), c \in Pick(Range(In.chars)), k \in Pick({"ins", "del", "rep", "swap"}) :
    /\ str' = CASE k = "ins" -> Upto(str, i - 1) \o c \o From(str, i)
                [] k = "del" -> Upto(str, i - 1) \o From(str, i + 1)
                [] k = "rep" -> Upto(str, i - 1) \o c \o From(str, i + 1)
                [] OTHER     -> IF i < Len(str) THEN Upto(str, i - 1) \o At(str, i + 1) \o At(str, i) \o From(str, i + 2) ELSE str
    /\ n' = n + 1
\* Once a string cannot become an expression any more, one extension of it is enough
Dead(s) == LET t == Lex(s, 1) IN
  \/ \E i \in DOMAIN t : t[i].k = "op" /\ t[i].s \in {"&&", "||", ")"} /\ (i = 1 \/ (t[i - 1].k = "op" /\ t[i - 1].s # ")"))
  \/ \E i \in 2..Len(t) : t[i].k = "op" /\ t[i].s \in {"!", "("} /\ (t[i - 1].k = "word" \/ t[i - 1].s = ")")
  \/ \E i \in 1..Len(t) : Cardinality({ j \in 1..i : t[j].s = ")" /\ t[j].k = "op" }) > Cardinality({ j \in 1..i : t[j].s = "(" /\ t[j].k = "op" })
Next == IF In.pieces # <<>> THEN n < In.max /\ ~Dead(str) /\ Append1 ELSE Change
Spec == Init /\ [][Next]_vars

Ctx == [ i \in DOMAIN In.lines |-> LET l == In.lines[i] IN [ has |-> Range(l.has), vals |-> Range(l.vals), pos |-> l.pos ] ]
Truth(s) == LET t == TLCEval(Lex(s, 1)) IN [ i \in DOMAIN In.lines |-> Expr(t, 1, Ctx[i]).v ]

\* Properties of the language itself
Wrapped(s) == "( " \o s \o " )"
Inv ==
  LET v == TLCEval(Verdict(str))
      b == TLCEval(IF v = 0 /\ Clear(str) THEN Truth(str) ELSE <<>>) IN
  /\ v < 2 => ~Dead(str)
  /\ v = 0 => /\ Verdict(Wrapped(str)) = 0 /\ Verdict("! " \o Wrapped(str)) = 0
              /\ Verdict(str \o " &&") = 2 /\ Verdict(str \o " )") = 2 /\ Verdict("( " \o str) = 2
  /\ b # <<>> => /\ Truth("! " \o Wrapped(str)) = [ i \in DOMAIN b |-> ~b[i] ]
                 /\ Truth("! ! " \o Wrapped(str)) = b
                 /\ Truth(str \o " && " \o Wrapped(str)) = b
                 /\ Truth(str \o " || has_option -a && has_option -b") = [ i \in DOMAIN b |-> (b[i] \/ "-a" \in Ctx[i].has) /\ "-b" \in Ctx[i].has ]
  /\ Serialize(ToJson([ s |-> str, v |-> v, b |-> b ]) \o "\n", EmitFile,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
