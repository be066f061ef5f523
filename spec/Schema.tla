------------------------------- MODULE Schema -------------------------------
(* Which definition documents are valid.  A JSON value is                    *)
(*   [t |-> "s" | "i" | "f" | "b" | "z" | "l" | "d", s |-> string, n |-> 100 * number, *)
(*    k |-> <<keys>>, v |-> <<values>>]                                      *)
(* A verdict is 0 (must be accepted), 1 (not documented), 2 (must be rejected). *)
EXTENDS Str

Worse(a, b) == IF a > b THEN a ELSE b
RECURSIVE Worst(_)
Worst(l) == IF l = <<>> THEN 0 ELSE IF Head(l) = 2 THEN 2 ELSE Worse(Head(l), Worst(Tail(l)))
Bad(b) == IF b THEN 2 ELSE 0
Odd(b) == IF b THEN 1 ELSE 0
AllOf(l, F(_)) == Worst([ i \in DOMAIN l |-> F(l[i]) ])

KnownDummy(os) == TRUE
W == INSTANCE When WITH Known <- KnownDummy

Str0(x)  == x.t = "s"
HasKey(d, k) == \E i \in DOMAIN d.k : d.k[i] = k
Get(d, k) == d.v[CHOOSE i \in DOMAIN d.k : d.k[i] = k]
Given(d, k) == HasKey(d, k) /\ Get(d, k).t # "z"
IsTrue(d, k) == HasKey(d, k) /\ Get(d, k).t = "b" /\ Get(d, k).n = 100
White(c)  == c \in {" ", "\t", "\n", "\r"}
Empty(s)  == \A i \in 1..Len(s) : White(At(s, i))
Spaced(s) == \E i \in 1..Len(s) : At(s, i) \in {" ", "\t", "\n"}

\* The value has one of these types ("b" is also an "i" for some: not documented)
T(x, types) == IF x.t \in types THEN 0 ELSE IF x.t = "b" /\ "i" \in types THEN 1 ELSE 2

\* Rules for the value of a key, by name
NonEmpty(x) == Bad(Empty(x.s))
Char(x)     == Bad(Len(x.s) # 1)
Variable(x) == Bad(x.s = "" \/ Index("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", At(x.s, 1)) = 0
                   \/ \E i \in 1..Len(x.s) : Index("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", At(x.s, i)) = 0)
ExtBool(x)  == IF x.t = "b" THEN 0 ELSE IF x.t = "s" THEN Bad(x.s # "INHERIT") ELSE IF x.t = "z" THEN 1 ELSE 2
OptionStr(x) == IF x.t # "s" THEN 2
                ELSE Bad(~Pfx("-", x.s) \/ Len(x.s) < 2 \/ x.s = "--" \/ Spaced(x.s) \/ Index(x.s, ",") > 0)
Rule(name, x) ==
  CASE name = "any"      -> 0
    [] name = "nonempty" -> NonEmpty(x)
    [] name = "char"     -> Char(x)
    [] name = "list"     -> Bad(x.v = <<>>)
    [] name = "strings"  -> Worst(<<Bad(x.v = <<>>), AllOf(x.v, LAMBDA y : IF y.t # "s" THEN 2 ELSE NonEmpty(y))>>)
    [] name = "words"    -> Worst(<<Bad(x.v = <<>>), AllOf(x.v, LAMBDA y : IF y.t # "s" THEN 2 ELSE Bad(Empty(y.s) \/ Spaced(y.s)))>>)
    [] name = "globs"    -> Worst(<<Bad(x.v = <<>>), AllOf(x.v, LAMBDA y : IF y.t # "s" \/ Empty(y.s) THEN 2 ELSE
                              IF \A i \in 1..Len(y.s) : Index("abcdefghijklmnopqrstuvwxyz.*?_-", At(y.s, i)) > 0 THEN 0 ELSE 1)>>)
    [] name = "texts"    -> Worst(<<Bad(x.v = <<>>), AllOf(x.v, LAMBDA y : IF y.t # "s" THEN 2 ELSE 0)>>)
\* Dictionary with exactly known keys: rules is a set of <<key, required, types, rule>>
Dict(d, rules) ==
  IF d.t # "d" THEN 2
  ELSE Worse(Bad(\E r \in rules : r[2] /\ ~HasKey(d, r[1])),
       Worst([ i \in DOMAIN d.k |->
         IF ~\E r \in rules : r[1] = d.k[i] THEN 2
         ELSE LET r == CHOOSE r \in rules : r[1] = d.k[i]
                  w == T(d.v[i], r[3]) IN IF w > 0 THEN w ELSE IF d.v[i].t = "z" THEN (IF "b" \in r[3] THEN 1 ELSE 0) ELSE Rule(r[4], d.v[i]) ]))

-----------------------------------------------------------------------------
(* Completers.  ctx = [opt: is it of an option, rep: repeatable positional, cmd: is there a command in front,  *)
(* up: the completer around it or ""]                                        *)

FileRules == { <<"directory", FALSE, {"s"}, "nonempty">>, <<"extensions", FALSE, {"l"}, "words">>, <<"fuzzy", FALSE, {"b"}, "any">>,
               <<"ignore_globs", FALSE, {"l"}, "globs">> }
DirRules  == { <<"directory", FALSE, {"s"}, "nonempty">> }
ListRules == { <<"separator", FALSE, {"s"}, "char">>, <<"duplicates", FALSE, {"b"}, "any">> }
Void == { "alsa_card", "alsa_device", "charset", "commandline_string", "date_format", "environment", "filesystem_type", "gid", "group", "hostname",
          "locale", "login_shell", "mountpoint", "net_interface", "pid", "process", "service", "signal", "timezone", "uid", "user", "variable" }

\* between m and n arguments
Args(a, m, n) == Bad(Len(a) < m \/ Len(a) > n)
Opts(a, rules) == IF Len(a) = 0 THEN 0 ELSE IF Len(a) > 1 THEN 2 ELSE Dict(a[1], rules)
Text(x) == Bad(x.t # "s")
CharArg(x) == IF x.t # "s" THEN 2 ELSE Char(x)
NonEmptyArg(x) == IF x.t # "s" THEN 2 ELSE NonEmpty(x)
RegexArg(x) == IF x.t # "s" THEN 2 ELSE W!Regex(x.s)
RegexOrEmpty(x) == IF x.t = "s" /\ x.s = "" THEN 1 ELSE RegexArg(x)

RECURSIVE Complete(_, _)
Nested(x, ctx, up) == IF x.t # "l" THEN 2 ELSE Complete(x, [ ctx EXCEPT !.up = up ])
\* one row of key_value_list / key_value_pair
Row(r, ctx, up) ==
  IF r.t # "l" THEN 2
  ELSE IF Len(r.v) # 3 /\ ~(Len(r.v) = 4 /\ up = "key_value_list") THEN 2
  ELSE Worst(<< IF r.v[1].t # "s" THEN 2 ELSE Bad(Empty(r.v[1].s) \/ Spaced(r.v[1].s)), T(r.v[2], {"s", "z"}),
                IF r.v[3].t = "z" THEN 0 ELSE Nested(r.v[3], ctx, up),
                IF Len(r.v) < 4 THEN 0 ELSE IF r.v[4].t # "l" THEN 2 ELSE AllOf(r.v[4].v, NonEmptyArg) >>)
Rows(x, ctx, up) ==
  IF x.t # "l" \/ x.v = <<>> THEN 2
  ELSE LET w == AllOf(x.v, LAMBDA r : Row(r, ctx, up)) IN
    IF w = 2 THEN 2
    ELSE LET key(i) == x.v[i].v[1].s
             keys == { key(i) : i \in DOMAIN x.v }
             dup == \E i, j \in DOMAIN x.v : i < j /\ key(i) = key(j) IN
      IF up = "key_value_pair" THEN Worse(w, Odd(dup))
      ELSE Worst(<< w, Bad(dup), Odd(\E k \in keys : ("*" \o k) \in keys),
             Bad(\E i \in DOMAIN x.v : Len(x.v[i].v) = 4 /\ \E j \in DOMAIN x.v[i].v[4].v :
                   x.v[i].v[4].v[j].s \notin keys /\ ("*" \o x.v[i].v[4].v[j].s) \notin keys) >>)
\* the undocumented last argument of the key-value completers
Cond(a, n) == IF Len(a) < n THEN 0 ELSE IF a[n].t = "z" THEN 1 ELSE IF a[n].t = "s" THEN Worse(1, NonEmpty(a[n])) ELSE 2
Number(a, types) ==
  Worse(Opts(a, { <<"min", FALSE, types, "any">>, <<"max", FALSE, types, "any">>, <<"help", FALSE, {"s"}, "nonempty">>, <<"suffixes", FALSE, {"d"}, "strings">> }),
        IF Len(a) = 1 /\ a[1].t = "d" /\ HasKey(a[1], "min") /\ HasKey(a[1], "max") /\ Get(a[1], "min").t \in {"i", "f"} /\ Get(a[1], "max").t \in {"i", "f"}
        THEN Bad(Get(a[1], "min").n > Get(a[1], "max").n) ELSE 0)
Suffixes(a) == IF Len(a) = 1 /\ a[1].t = "d" /\ HasKey(a[1], "suffixes") /\ Get(a[1], "suffixes").t = "d"
               THEN Bad(\E i \in DOMAIN Get(a[1], "suffixes").k : Empty(Get(a[1], "suffixes").k[i])) ELSE 0

Complete(x, ctx) ==
  IF x.t # "l" \/ x.v = <<>> THEN 2
  ELSE IF x.v[1].t # "s" THEN 2
  ELSE LET c == x.v[1].s  a == Tail(x.v)  n == Len(a) IN
  CASE c \in Void -> Args(a, 0, 0)
    [] c = "none" -> IF n > 0 \/ ctx.up \in {"combine", "list", "prefix"} THEN 2 ELSE 0
    [] c = "choices" ->
         IF n # 1 THEN 2
         ELSE IF a[1].t = "l" THEN AllOf(a[1].v, LAMBDA y : T(y, {"s", "i"}))
         ELSE IF a[1].t = "d" THEN AllOf(a[1].v, LAMBDA y : T(y, {"s", "i"})) ELSE 2
    [] c = "command" ->
         Worse(Opts(a, { <<"path", FALSE, {"s"}, "nonempty">>, <<"path_append", FALSE, {"s"}, "nonempty">>, <<"path_prepend", FALSE, {"s"}, "nonempty">> }),
               IF n = 1 /\ a[1].t = "d" THEN Bad(HasKey(a[1], "path") /\ (HasKey(a[1], "path_append") \/ HasKey(a[1], "path_prepend"))) ELSE 0)
    [] c = "command_arg" -> IF n > 0 \/ ctx.opt \/ ~ctx.rep \/ ~ctx.cmd \/ ctx.up \in {"combine", "list", "key_value_list", "key_value_pair"} THEN 2
                            ELSE Odd(ctx.up # "")
    [] c = "file"           -> Opts(a, FileRules)
    [] c = "directory"      -> Opts(a, DirRules)
    [] c = "file_list"      -> Opts(a, FileRules \cup ListRules)
    [] c = "directory_list" -> Opts(a, DirRules \cup ListRules)
    [] c = "mime_file"      -> IF n # 1 THEN 2 ELSE RegexOrEmpty(a[1])
    [] c = "history"        -> IF n # 1 THEN 2 ELSE RegexOrEmpty(a[1])
    [] c = "date"           -> IF n # 1 THEN 2 ELSE NonEmptyArg(a[1])
    [] c \in {"exec", "exec_fast", "exec_internal"} -> IF n # 1 THEN 2 ELSE IF a[1].t # "s" THEN 2 ELSE Odd(Empty(a[1].s))
    [] c = "range" ->
         IF n < 2 \/ n > 3 THEN 2
         ELSE LET ty == AllOf(a, LAMBDA y : T(y, {"i"}))
                  step == IF n = 3 THEN a[3].n ELSE 100 IN
              IF ty > 0 THEN ty ELSE Bad(step = 0 \/ (step > 0 /\ a[1].n > a[2].n) \/ (step < 0 /\ a[2].n > a[1].n))
    [] c = "key_value_list_exec" -> IF n # 3 THEN 2 ELSE Worst(<<CharArg(a[1]), CharArg(a[2]), NonEmptyArg(a[3])>>)
    [] c = "key_value_pair_exec" -> IF n # 2 THEN 2 ELSE Worst(<<CharArg(a[1]), NonEmptyArg(a[2])>>)
    [] c = "value_list" ->
         IF n # 1 THEN 2
         ELSE Worse(Dict(a[1], ListRules \cup { <<"values", TRUE, {"l", "d"}, "texts">> }), 0)
    [] c = "key_value_list" -> IF n < 3 \/ n > 4 THEN 2 ELSE Worst(<<CharArg(a[1]), CharArg(a[2]), Rows(a[3], ctx, c), Cond(a, 4)>>)
    [] c = "key_value_pair" -> IF n < 2 \/ n > 3 THEN 2 ELSE Worst(<<CharArg(a[1]), Rows(a[2], ctx, c), Cond(a, 3)>>)
    [] c = "combine" -> IF n # 1 THEN 2 ELSE IF a[1].t # "l" THEN 2 ELSE Worse(Bad(Len(a[1].v) < 2), AllOf(a[1].v, LAMBDA y : Nested(y, ctx, c)))
    [] c = "list"    -> IF n < 1 \/ n > 2 THEN 2 ELSE Worse(Nested(a[1], ctx, c), Opts(Tail(a), ListRules))
    [] c = "prefix"  -> IF n # 2 THEN 2 ELSE Worse(Text(a[1]), Nested(a[2], ctx, c))
    [] c = "ip_address" -> IF n = 0 THEN 0 ELSE IF n > 1 THEN 2 ELSE Bad(a[1].t # "s" \/ a[1].s \notin {"ipv4", "ipv6", "all", "ipv4+", "ipv6+", "all+"})
    [] c = "integer" -> Worse(Number(a, {"i"}), Suffixes(a))
    [] c = "float"   -> Worse(Number(a, {"i", "f"}), Suffixes(a))
    [] OTHER -> 2

-----------------------------------------------------------------------------
(* Options, positionals, commands                                            *)

\* an empty list says nothing (not documented)
TopComplete(x, ctx) == IF x.t = "l" /\ x.v = <<>> THEN 1 ELSE Complete(x, ctx)
NB == {"b", "z"}
NS == {"s", "z"}
NL == {"l", "z"}
OptRules == { <<"option_strings", TRUE, {"l"}, "list">>, <<"metavar", FALSE, NS, "any">>, <<"help", FALSE, NS, "any">>, <<"optional_arg", FALSE, NB, "any">>,
              <<"groups", FALSE, NL, "any">>, <<"repeatable", FALSE, {"b", "s", "z"}, "any">>, <<"final", FALSE, NB, "any">>, <<"hidden", FALSE, NB, "any">>,
              <<"nosort", FALSE, NB, "any">>, <<"complete", FALSE, NL, "any">>, <<"when", FALSE, NS, "any">>, <<"capture", FALSE, NS, "any">>,
              <<"long_opt_arg_sep", FALSE, NS, "any">> }
When(d) == IF Given(d, "when") THEN W!Verdict(Get(d, "when").s) ELSE 0
\* strings a `when` names and that no option of the command has: rejected by some shells only
WhenKnown(d, strings) == IF ~Given(d, "when") THEN 0
  ELSE LET t == W!Lex(Get(d, "when").s, 1) IN
       Odd(\E i \in DOMAIN t : t[i].k = "word" /\ Pfx("-", t[i].s) /\ t[i].s # "--" /\ t[i].s \notin strings)
Option(o, strings) ==
  LET w == Dict(o, OptRules) IN
  IF w = 2 THEN 2
  ELSE Worst(<<
    w, AllOf(Get(o, "option_strings").v, OptionStr),
    Bad(Given(o, "metavar") /\ ~Given(o, "complete")),
    Bad(IsTrue(o, "optional_arg") /\ ~Given(o, "complete")),
    Bad(IsTrue(o, "repeatable") /\ IsTrue(o, "hidden")),
    IF Given(o, "groups") THEN AllOf(Get(o, "groups").v, Text) ELSE 0,
    IF HasKey(o, "repeatable") THEN ExtBool(Get(o, "repeatable")) ELSE 0,
    IF Given(o, "complete") THEN TopComplete(Get(o, "complete"), [opt |-> TRUE, rep |-> FALSE, cmd |-> FALSE, up |-> ""]) ELSE 0,
    When(o), WhenKnown(o, strings),
    IF Given(o, "capture") THEN Variable(Get(o, "capture")) ELSE 0,
    IF HasKey(o, "long_opt_arg_sep") THEN IF Get(o, "long_opt_arg_sep").t = "z" THEN 1 ELSE Bad(Get(o, "long_opt_arg_sep").s \notin {"space", "equals", "both", "INHERIT"}) ELSE 0 >>)

PosRules == { <<"number", TRUE, {"i"}, "any">>, <<"metavar", FALSE, NS, "any">>, <<"help", FALSE, NS, "any">>, <<"repeatable", FALSE, NB, "any">>,
              <<"nosort", FALSE, NB, "any">>, <<"complete", FALSE, NL, "any">>, <<"when", FALSE, NS, "any">>, <<"capture", FALSE, NS, "any">> }
Positional(p, all, strings) ==
  LET w == Dict(p, PosRules) IN
  IF w = 2 THEN 2
  ELSE LET num == Get(p, "number").n
           before(q) == q.t = "d" /\ HasKey(q, "number") /\ HasKey(q, "complete") /\ Get(q, "number").n = num - 100
                        /\ Get(q, "complete").t = "l" /\ Get(q, "complete").v # <<>> /\ Get(q, "complete").v[1].s = "command" IN
    Worst(<< w, Bad(num < 100), When(p), WhenKnown(p, strings), Odd(num > 900),
             IF Given(p, "complete")
             THEN TopComplete(Get(p, "complete"), [opt |-> FALSE, rep |-> IsTrue(p, "repeatable"), cmd |-> \E i \in DOMAIN all : before(all[i]), up |-> ""]) ELSE 0,
             IF Given(p, "capture") THEN Variable(Get(p, "capture")) ELSE 0 >>)

Prog(d) == Get(d, "prog").s
ProgOK(s) == ~Empty(s) /\ ~Pfx(" ", s) /\ ~Sfx(" ", s) /\ (\A i \in 1..Len(s) : At(s, i) \notin {"\t", "\n"})
             /\ \A i \in 1..Len(s) - 1 : SubSeq(s, i, i + 1) # "  "
Parent(s) == LET i == LastIndex(s, " ") IN IF i = 0 THEN "" ELSE Upto(s, i - 1)
DocRules == { <<"prog", TRUE, {"s"}, "any">>, <<"help", FALSE, NS, "any">>, <<"aliases", FALSE, NL, "any">>, <<"wraps", FALSE, NS, "any">>,
              <<"abbreviate_commands", FALSE, {"b", "s", "z"}, "any">>, <<"abbreviate_options", FALSE, {"b", "s", "z"}, "any">>,
              <<"inherit_options", FALSE, {"b", "s", "z"}, "any">>, <<"options", FALSE, NL, "any">>, <<"positionals", FALSE, NL, "any">> }
Elems(d, k) == IF Given(d, k) /\ Get(d, k).t = "l" THEN Get(d, k).v ELSE <<>>
Strings(d) == UNION { IF o.t = "d" /\ HasKey(o, "option_strings") THEN { s.s : s \in Range(Get(o, "option_strings").v) } ELSE {} : o \in Range(Elems(d, "options")) }
Rep(p) == IsTrue(p, "repeatable")
Num(p) == Get(p, "number").n
Doc(d, hasSub) ==
  LET w == Dict(d, DocRules) IN
  IF w = 2 THEN 2
  ELSE LET ps == Elems(d, "positionals")
           v == AllOf(ps, LAMBDA p : Positional(p, ps, Strings(d))) IN
    Worst(<< w, Bad(~ProgOK(Prog(d))),
      AllOf(Elems(d, "aliases"), LAMBDA a : IF a.t # "s" THEN 2 ELSE Bad(Empty(a.s) \/ Spaced(a.s))),
      IF Given(d, "wraps") THEN Bad(Empty(Get(d, "wraps").s) \/ Spaced(Get(d, "wraps").s) \/ Index(Prog(d), " ") > 0) ELSE 0,
      Worst([ i \in 1..3 |-> LET k == <<"abbreviate_commands", "abbreviate_options", "inherit_options">>[i] IN
                             IF HasKey(d, k) THEN ExtBool(Get(d, k)) ELSE 0 ]),
      AllOf(Elems(d, "options"), LAMBDA o : Option(o, Strings(d))),
      v,
      \* the same option string twice
      LET os == Elems(d, "options") IN
        Odd(\E i, j \in DOMAIN os : i < j /\ os[i].t = "d" /\ os[j].t = "d" /\ HasKey(os[i], "option_strings") /\ HasKey(os[j], "option_strings")
            /\ { s.s : s \in Range(Get(os[i], "option_strings").v) } \cap { s.s : s \in Range(Get(os[j], "option_strings").v) } # {}),
      IF v = 2 THEN 0
      ELSE Bad(\/ \E p, q \in Range(ps) : Rep(p) /\ Num(q) > Num(p)      \* nothing behind a repeatable positional
               \/ hasSub /\ \E p \in Range(ps) : Rep(p)) >>)

\* Documents of a file: every command once, one program, parents in front of their subcommands
Docs(l) ==
  IF l = <<>> THEN 2
  ELSE IF \E i \in DOMAIN l : l[i].t # "d" THEN 2
  ELSE IF \E i \in DOMAIN l : ~HasKey(l[i], "prog") THEN 2
  ELSE IF \E i \in DOMAIN l : Get(l[i], "prog").t # "s" THEN 2
  ELSE LET prog(i) == Prog(l[i]) IN
    Worst(<<
      Bad(\E i, j \in DOMAIN l : i < j /\ prog(i) = prog(j)),
      Bad(Cardinality({ i \in DOMAIN l : Parent(prog(i)) = "" }) # 1),
      Bad(\E i \in DOMAIN l : Parent(prog(i)) # "" /\ ~\E j \in DOMAIN l : prog(j) = Parent(prog(i))),
      Odd(\E i \in DOMAIN l : Parent(prog(i)) # "" /\ ~\E j \in 1..i - 1 : prog(j) = Parent(prog(i))),
      Worst([ i \in DOMAIN l |-> Doc(l[i], \E j \in DOMAIN l : j # i /\ Parent(prog(j)) = prog(i)) ]) >>)
=============================================================================
