------------------------------ MODULE Argparse ------------------------------
(* Python programs that build an ArgumentParser (with the annotations of     *)
(* crazy-complete), call by call, and the definition that mirrors them.      *)
EXTENDS Str, Json, IOUtils

CONSTANTS EmitFile, MaxLen
In == JsonDeserialize(IOEnv.CC_ARGP)   \* [names: pairs of option strings, words, completes, whens, ranges: [start, stop, step], ncomplete]

VARIABLES ps,      \* the parsers: [name, up, aliases, als, help, desc, auto, acts, groups, sub]
          calls    \* how many calls made them
vars == <<ps, calls>>

Parser(name, up, aliases, help, desc, auto) ==
  [name |-> name, up |-> up, aliases |-> aliases, als |-> <<>>, help |-> help, desc |-> desc, auto |-> auto, acts |-> <<>>, groups |-> 0, sub |-> 0]

NoArg == {"true", "false", "const", "appendconst", "count", "version"}
WithArg == {"store", "append", "extend"}
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
HelpText == {"none", "text", "text", "suppress"}
Mostly(x, S) == IF RandomElement(1..3) = 1 THEN RandomElement(S) ELSE x

Used(p) == UNION { Range(ps[p].acts[i].strs) : i \in DOMAIN ps[p].acts } \cup (IF ps[p].auto THEN {"-h", "--help"} ELSE {})
Dests(p) == { ps[p].acts[i].word : i \in DOMAIN ps[p].acts }
Names(p) == UNION { {ps[q].name} \cup Range(ps[q].aliases) \cup Range(ps[q].als) : q \in { q \in DOMAIN ps : ps[q].up = p /\ q # p } }
Free(p) == { n \in DOMAIN In.names : Range(In.names[n]) \cap Used(p) = {} }

\* add_argument of an option / of a positional
Act(p, strs, word, k) ==
  [ strs |-> strs, word |-> word, kind |-> k,
    nargs    |-> IF k \in NoArg THEN "none" ELSE IF k = "extend" THEN RandomElement({"+", "*"})
                 ELSE IF strs = <<>> THEN RandomElement({"none", "?", "*", "+", "1", "2", "3", "..."}) ELSE Mostly("none", {"none", "?", "?", "*", "+", "1", "2", "..."}),
    choices  |-> IF k \in NoArg \/ RandomElement({1, 2}) = 1 THEN "no" ELSE RandomElement({"list", "tuple", "ints", "range", "dict", "set", "keys"}),
    range    |-> RandomElement(DOMAIN In.ranges),
    help     |-> IF strs = <<>> THEN Mostly("text", HelpText) ELSE RandomElement(HelpText),
    metavar  |-> IF k \in NoArg THEN "no" ELSE Mostly("no", {"no", "word", "tuple"}),
    group    |-> IF strs # <<>> /\ ps[p].groups > 0 THEN RandomElement(0..ps[p].groups) ELSE 0,
    argument_group |-> RandomElement({FALSE, FALSE, TRUE}),
    required |-> RandomElement({FALSE, FALSE, TRUE}),
    complete |-> IF k \in NoArg THEN 0 ELSE Mostly(0, DOMAIN In.completes),
    when     |-> Mostly(0, DOMAIN In.whens),
    rep      |-> IF strs = <<>> THEN "unset" ELSE Mostly("unset", {"yes", "no"}),
    final    |-> IF strs = <<>> THEN "unset" ELSE Mostly("unset", {"yes", "no"}) ]
\* what argparse itself refuses, and what has no mirror (a hidden option cannot be repeated)
Proper(a) == /\ (a.strs = <<>> /\ a.nargs \in {"*", "?", "..."}) => ~a.required
             /\ a.metavar = "tuple" => a.nargs = "2"
             /\ ~(a.rep = "yes" /\ a.help = "suppress")
Add(p, a) == ps' = [ps EXCEPT ![p].acts = Append(@, a)]
Option(p) == \E n \in Pick(Free(p)), k \in Pick({"store", "store"} \cup Pick(WithArg \cup NoArg)), w \in Pick(DOMAIN In.words) :
             LET a == Act(p, In.names[n], In.words[w], k) IN \E b \in {a} : Proper(b) /\ Add(p, b)
Positional(p) == ps[p].sub = 0 /\ \E w \in Pick({ w \in DOMAIN In.words : In.words[w] \notin Dests(p) }) :
             LET a == Act(p, <<>>, In.words[w], "store") IN \E b \in {a} : Proper(b) /\ Add(p, b)
Group(p) == ps[p].groups < 3 /\ ps' = [ps EXCEPT ![p].groups = @ + 1]
Sub(p)   == /\ Len(ps) < 7
            /\ \E w \in Pick({ w \in DOMAIN In.words : In.words[w] \notin Names(p) }) :
               \E v \in Pick({ v \in DOMAIN In.words : In.words[v] \notin Names(p) \cup {In.words[w]} }) :
               \E a \in Pick({<<>>, <<>>, <<In.words[v]>>}) : \E h \in Pick({"none", "text", "suppress", "text"}), d \in Pick({"none", "text"}), auto \in Pick({TRUE, TRUE, FALSE}) :
                 ps' = Append([ps EXCEPT ![p].sub = 1], Parser(In.words[w], p, a, h, d, auto))
\* parser.alias()
Alias(p) == /\ ps[p].als = <<>>
            /\ \E w \in Pick({ w \in DOMAIN In.words : In.words[w] \notin Names(ps[p].up) /\ In.words[w] \notin Range(ps[p].aliases) }) :
                 ps' = [ps EXCEPT ![p].als = <<In.words[w]>>]

Init == calls = 0 /\ \E d \in {"none", "text"}, auto \in {TRUE, FALSE} : ps = <<Parser("ccp", 1, <<>>, "none", d, auto)>>
Next == /\ calls < MaxLen /\ calls' = calls + 1
        /\ \E p \in Pick(DOMAIN ps) : Option(p) \/ Option(p) \/ Option(p) \/ Positional(p) \/ Group(p) \/ Sub(p) \/ Alias(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The mirror *)
Dash(s) == IF Len(s) > 0 /\ At(s, 1) = "-" THEN TRUE ELSE FALSE
RECURSIVE Strip(_)
Strip(s) == IF Dash(s) THEN Strip(From(s, 2)) ELSE s
Underscored(s) == JoinWith(SplitAt(s, "-"), "_")
Dest(strs) == LET long == SelectSeq(strs, LAMBDA s : Pfx("--", s)) IN Underscored(Strip(IF long # <<>> THEN long[1] ELSE strs[1]))
Text(h, t) == IF h = "text" THEN t ELSE ""
Metavar(a) == CASE a.metavar = "no" -> IF a.strs = <<>> THEN a.word ELSE Dest(a.strs)
                [] OTHER -> "META"       \* of a tuple, the first
RECURSIVE Steps(_, _, _)
Steps(i, stop, step) == IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>> ELSE <<ToString(i)>> \o Steps(i + step, stop, step)
Chosen(a) == CASE a.choices = "range" -> LET r == In.ranges[a.range] IN Steps(r.start, r.stop, r.step)
               [] a.choices = "ints" -> <<"1", "10", "-5">>
               [] OTHER -> <<"c" \o a.word, "x y", "=">>
Complete(a) == IF a.complete # 0 THEN <<"given", ToString(a.complete)>>
               ELSE IF a.choices # "no" THEN <<"choices">> \o Chosen(a) ELSE <<"none">>
OptionOf(a) ==
  LET arg == a.kind \in WithArg IN
  [ strs |-> a.strs, arity |-> IF ~arg THEN "none" ELSE IF a.nargs = "?" THEN "optional" ELSE "required",
    metavar |-> IF arg THEN Metavar(a) ELSE "", complete |-> IF arg THEN Complete(a) ELSE <<>>, help |-> IF a.kind = "version" /\ a.help = "none" THEN "show program's version number and exit" ELSE Text(a.help, "H " \o a.word), hidden |-> a.help = "suppress",
    final |-> a.kind = "version" \/ a.final = "yes", rep |-> a.rep, group |-> a.group, when |-> a.when, set |-> a.choices = "set" /\ a.complete = 0 ]
HelpOption == [ strs |-> <<"-h", "--help">>, arity |-> "none", metavar |-> "", complete |-> <<>>, help |-> "show this help message and exit", hidden |-> FALSE,
                final |-> TRUE, rep |-> "unset", group |-> 0, when |-> 0, set |-> FALSE ]
PositionalOf(a, n) == [ number |-> n, metavar |-> Metavar(a), repeatable |-> a.nargs \notin {"none", "?", "1"}, complete |-> Complete(a), help |-> Text(a.help, "H " \o a.word),
                        when |-> a.when, set |-> a.choices = "set" /\ a.complete = 0 ]
Mirror(p) ==
  LET x == ps[p]
      opts == SelectSeq(x.acts, LAMBDA a : a.strs # <<>>)
      poss == SelectSeq(x.acts, LAMBDA a : a.strs = <<>>) IN
  [ name |-> x.name, up |-> x.up, names |-> <<x.name>> \o x.aliases \o x.als,
    help |-> IF p > 1 /\ x.help = "text" THEN "Help of " \o x.name ELSE IF x.desc = "text" THEN "Description of " \o x.name ELSE "",
    opts |-> (IF x.auto THEN <<HelpOption>> ELSE <<>>) \o [ i \in DOMAIN opts |-> OptionOf(opts[i]) ],
    poss |-> [ i \in DOMAIN poss |-> PositionalOf(poss[i], i) ] ]
\* definitions know one repeatable positional, the last, and none in front of commands
Valid(p) == LET m == Mirror(p).poss IN \A i \in DOMAIN m : m[i].repeatable => i = Len(m) /\ ps[p].sub = 0
Mirrors == [ p \in DOMAIN ps |-> Mirror(p) ]

\* Properties of the mirror
Whole  == \A p \in DOMAIN ps : Len(Mirror(p).opts) + Len(Mirror(p).poss) = Len(ps[p].acts) + (IF ps[p].auto THEN 1 ELSE 0)
Single == \A p \in DOMAIN ps : LET o == Mirror(p).opts IN \A i, j \in DOMAIN o : i # j => Range(o[i].strs) \cap Range(o[j].strs) = {}
Order  == \A p \in DOMAIN ps : LET m == Mirror(p).poss IN \A i \in DOMAIN m : m[i].number = i
Arity  == \A p \in DOMAIN ps : \A i \in DOMAIN ps[p].acts : LET a == ps[p].acts[i] IN a.strs # <<>> =>
            ((OptionOf(a).arity = "none") = (a.kind \in NoArg)) /\ (OptionOf(a).arity = "none" => OptionOf(a).complete = <<>>)
Inv == Whole /\ Single /\ Order /\ Arity
Emit == calls < MaxLen \/ Serialize(ToJson([ps |-> ps, m |-> Mirrors, ok |-> \A p \in DOMAIN ps : Valid(p)]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
