------------------------------ MODULE Capture ------------------------------
(* Captured options.  A command line is given option by option; `given` is   *)
(* what the user meant, Parse() what a parser that knows the options makes   *)
(* of the words.  Both have to agree, and the variable of an option has to   *)
(* hold one element per occurrence.                                          *)
EXTENDS Str, Json, IOUtils

CONSTANTS EmitFile, MaxLen
\* [values: sequence of strings]
In == JsonDeserialize(IOEnv.CC_CAPTURE)

\* options of the program (level 1) and of its subcommand `sub` (level 2); `old` means -old
Options ==
  << [n |-> 1, lvl |-> 1, arg |-> "req",  long |-> {"--data", "--database"}, short |-> {"d"}, old |-> {}],
     [n |-> 2, lvl |-> 1, arg |-> "opt",  long |-> {"--maybe"},              short |-> {"m"}, old |-> {}],
     [n |-> 3, lvl |-> 1, arg |-> "none", long |-> {"--flag"},               short |-> {"f", "F"}, old |-> {}],
     [n |-> 4, lvl |-> 1, arg |-> "req",  long |-> {},                       short |-> {},    old |-> {"-name", "-nm"}],
     [n |-> 5, lvl |-> 2, arg |-> "req",  long |-> {"--sub-data"},           short |-> {"s"}, old |-> {}],
     [n |-> 6, lvl |-> 2, arg |-> "none", long |-> {"--quick"},              short |-> {"q"}, old |-> {}] >>
None == <<"none">>

\* sub: whether the subcommand has been given; inh: it takes the program's options, too
VARIABLES words, given, sub, inh
vars == <<words, given, sub, inh>>

\* a word: what stands before the value, the value, how the value is quoted
W(pre, v, q) == [pre |-> pre, v |-> v, q |-> q]
Raw(w) == w.pre \o w.v

-----------------------------------------------------------------------------
(* what a parser makes of the words *)
Known(lvl) == { o \in Range(Options) : o.lvl = lvl \/ (inh /\ o.lvl < lvl) }
RECURSIVE Pool(_, _, _)
\* the letters s behind a dash; rest: the words that follow.  [given, skip: how many words are used up]
Pool(s, rest, lvl) ==
  IF s = "" THEN [given |-> <<>>, skip |-> 0]
  ELSE LET c == At(s, 1)  t == From(s, 2)  os == { o \in Known(lvl) : c \in o.short } IN
       IF os = {} THEN [given |-> <<>>, skip |-> 0]
       ELSE LET o == CHOOSE x \in os : TRUE IN
            CASE o.arg = "none" -> LET r == Pool(t, rest, lvl) IN [given |-> <<<<o.n, None>>>> \o r.given, skip |-> r.skip]
              [] o.arg = "opt" -> [given |-> <<<<o.n, IF t = "" THEN None ELSE <<t>>>>>>, skip |-> 0]
              [] OTHER -> IF t # "" THEN [given |-> <<<<o.n, <<t>>>>>>, skip |-> 0]
                          ELSE IF rest = <<>> THEN [given |-> <<>>, skip |-> 0]
                          ELSE [given |-> <<<<o.n, <<Raw(Head(rest))>>>>>>, skip |-> 1]
RECURSIVE Parse(_, _)
Parse(ws, lvl) ==
  IF ws = <<>> THEN <<>>
  ELSE LET s == Raw(Head(ws))  rest == Tail(ws)  e == Index(s, "=")  name == IF e = 0 THEN s ELSE Upto(s, e - 1)
           lo == { o \in Known(lvl) : name \in o.long \cup o.old } IN
       CASE s = "--" -> <<>>
         [] lo # {} -> LET o == CHOOSE x \in lo : TRUE IN
              CASE o.arg # "none" /\ e # 0 -> <<<<o.n, <<From(s, e + 1)>>>>>> \o Parse(rest, lvl)
                [] o.arg = "req" -> IF rest = <<>> THEN <<>> ELSE <<<<o.n, <<Raw(Head(rest))>>>>>> \o Parse(Tail(rest), lvl)
                [] OTHER -> <<<<o.n, None>>>> \o Parse(rest, lvl)
         [] Len(s) > 1 /\ At(s, 1) = "-" -> LET p == Pool(From(s, 2), rest, lvl) IN p.given \o Parse(SubSeq(rest, 1 + p.skip, Len(rest)), lvl)
         [] OTHER -> Parse(rest, IF s = "sub" THEN 2 ELSE lvl)

-----------------------------------------------------------------------------
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Lvl == IF sub THEN 2 ELSE 1
Val(h) == { In.values[RandomElement(DOMAIN In.values)] }
Quo(h) == Pick({"plain", "single", "double", "single", "double"})
Add(ws, g) == words' = words \o ws /\ given' = given \o g
Say(n, v) == <<<<n, v>>>>
\* option letters without argument in front: -ffd
Flags == { o \in Known(Lvl) : o.arg = "none" }
Front == Pick({<<>>, <<>>, <<>>} \cup { <<f>> : f \in Flags } \cup { <<f, g>> : f, g \in Flags })
RECURSIVE Letters(_)
Letters(fs) == IF fs = <<>> THEN "" ELSE (CHOOSE c \in Head(fs).short : TRUE) \o Letters(Tail(fs))
Said(fs) == [ i \in DOMAIN fs |-> <<fs[i].n, None>> ]

\* Values of the subcommand's own options are tame: nothing in them looks like an option of the program (zsh reads the words of the
\* subcommand with the program's options, too); `=` behind an option letter is not claimed
Has(v, cs) == \E i \in 1..Len(v) : At(v, i) \in cs
Tame(o, v) == o.lvl = 1 \/ ~(Pfx("-", v) \/ Has(v, {"d", "m", "f", "F"}))
Long == \E o \in Pick({ o \in Known(Lvl) : o.long # {} }), v \in Val(words), q \in Quo(words), two \in Pick(BOOLEAN) : \E l \in Pick(o.long) :
          CASE o.arg = "none" -> Add(<<W(l, "", "plain")>>, Say(o.n, None))
            [] ~Tame(o, v) -> FALSE
            [] o.arg = "opt" /\ two -> Add(<<W(l, "", "plain")>>, Say(o.n, None))
            [] o.arg = "req" /\ two -> Add(<<W(l, "", "plain"), W("", v, q)>>, Say(o.n, <<v>>))
            [] OTHER -> Add(<<W(l \o "=", v, q)>>, Say(o.n, <<v>>))
Short == \E o \in Pick({ o \in Known(Lvl) : o.short # {} }), v \in Val(words), q \in Quo(words), two \in Pick(BOOLEAN), fs \in Front : \E c \in Pick(o.short) :
           LET p == "-" \o Letters(fs) \o c IN
           CASE o.arg = "none" -> Add(<<W(p, "", "plain")>>, Said(fs) \o Say(o.n, None))
             [] ~Tame(o, v) \/ (~two /\ Pfx("=", v)) -> FALSE
             [] o.arg = "opt" /\ (two \/ v = "") -> Add(<<W(p, "", "plain")>>, Said(fs) \o Say(o.n, None))
             [] o.arg = "req" /\ (two \/ v = "") -> Add(<<W(p, "", "plain"), W("", v, q)>>, Said(fs) \o Say(o.n, <<v>>))
             [] OTHER -> Add(<<W(p, v, q)>>, Said(fs) \o Say(o.n, <<v>>))
Old == \E o \in Pick({ o \in Known(Lvl) : o.old # {} }), v \in Val(words), q \in Quo(words), two \in Pick(BOOLEAN) : \E l \in Pick(o.old) :
         IF two THEN Add(<<W(l, "", "plain"), W("", v, q)>>, Say(o.n, <<v>>)) ELSE Add(<<W(l \o "=", v, q)>>, Say(o.n, <<v>>))
Sub == ~sub /\ sub' = TRUE /\ words' = Append(words, W("sub", "", "plain")) /\ given' = given /\ inh' = inh
Next == /\ Len(words) < MaxLen
        /\ \/ (Long \/ Long \/ Short \/ Short \/ Short \/ Old) /\ UNCHANGED <<sub, inh>>
           \/ RandomElement({1, 2, 3}) = 1 /\ Sub
Init == words = <<>> /\ given = <<>> /\ sub = FALSE /\ inh \in BOOLEAN
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
Captured(g, n) == [ i \in DOMAIN Filter(g, LAMBDA x : x[1] = n) |-> Filter(g, LAMBDA x : x[1] = n)[i][2] ]
Agree  == Parse(words, 1) = given
\* one element per occurrence
Counts == \A o \in Range(Options) : Len(Captured(given, o.n)) = Cardinality({ i \in DOMAIN given : given[i][1] = o.n })
\* giving something more keeps what has been captured
Grows  == [][\A o \in Range(Options) : Captured(given, o.n) = SubSeq(Captured(given', o.n), 1, Len(Captured(given, o.n)))]_vars
Emit == words = <<>> \/ Serialize(ToJson([words |-> words, sub |-> sub, inh |-> inh, cap |-> [ i \in DOMAIN Options |-> Captured(given, i) ]]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
