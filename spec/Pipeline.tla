------------------------------ MODULE Pipeline ------------------------------
(* What crazy-complete does to definition files before any script exists:    *)
(* reading (defines, the old `group`, any order of documents), conversion    *)
(* between YAML and JSON, the effect of --disable and of the global          *)
(* switches, and the equivalences between ways of writing a definition down. *)
(*                                                                           *)
(* A definition file is a sequence of documents.  Attribute values are JSON  *)
(* texts (opaque here but for substitution of defines and for `groups`);     *)
(* an attribute record has a dummy key "_" so that it is never empty.        *)
EXTENDS Str, Json, IOUtils, TLCExt

Defs == JsonDeserialize(IOEnv.CC_DEFS)
CONSTANT EmitFile

Without(r, k) == [ x \in DOMAIN r \ {k} |-> r[x] ]
Set(r, k, v)  == (k :> v) @@ Without(r, k)

-----------------------------------------------------------------------------
(* Defines                                                                   *)

\* The first place at which the quoted string w is a value (keys of dictionaries are not replaced), or 0
RECURSIVE Find(_, _, _)
Find(t, w, i) == IF i + Len(w) - 1 > Len(t) THEN 0
                 ELSE IF SubSeq(t, i, i + Len(w) - 1) = w /\ ~Pfx(":", From(t, i + Len(w))) THEN i ELSE Find(t, w, i + 1)
RECURSIVE Replace(_, _, _)
Replace(t, w, v) == LET i == Find(t, w, 1) IN
  IF i = 0 THEN t ELSE Upto(t, i - 1) \o v \o Replace(From(t, i + Len(w)), w, v)

RECURSIVE SubstAll(_, _)
SubstAll(t, ds) == IF ds = <<>> THEN t ELSE SubstAll(Replace(t, "\"" \o Head(ds).n \o "\"", Head(ds).v), Tail(ds))
SubstAttrs(a, ds) == IF ds = <<>> THEN a ELSE [ k \in DOMAIN a |-> SubstAll(a[k], ds) ]
Inline(docs, ds) ==
  [ i \in DOMAIN docs |->
    [ prog |-> docs[i].prog, a |-> SubstAttrs(docs[i].a, ds),
      o |-> [ j \in DOMAIN docs[i].o |-> [ s |-> docs[i].o[j].s, a |-> SubstAttrs(docs[i].o[j].a, ds) ] ],
      p |-> [ j \in DOMAIN docs[i].p |-> [ n |-> docs[i].p[j].n, a |-> SubstAttrs(docs[i].p[j].a, ds) ] ] ] ]

-----------------------------------------------------------------------------
(* The canonical form of a definition: what conversion writes.               *)

Null == "null"
True == "true"
False == "false"
Inherit == "\"INHERIT\""
Dropped(k, v) ==     \* attributes that say nothing
  \/ v = Null
  \/ k \in {"optional_arg", "final", "hidden", "nosort"} /\ v = False
  \/ k \in {"repeatable", "long_opt_arg_sep", "abbreviate_commands", "abbreviate_options", "inherit_options"} /\ v = Inherit
  \/ k = "aliases" /\ v = "[]"
  \/ k = "complete" /\ v = "[]"
Keep(a) == [ k \in { x \in DOMAIN a : ~Dropped(x, a[x]) } |-> a[k] ]
CanonOpt(o) ==
  LET a == o.a
      b == IF "group" \in DOMAIN a
           THEN LET c == Without(a, "group") IN IF "groups" \in DOMAIN a THEN c ELSE Set(c, "groups", "[" \o a.group \o "]")
           ELSE a IN
  [ s |-> o.s, a |-> Keep(b) ]
CanonPos(p) ==
  LET a == Keep(p.a)
      b == IF "complete" \in DOMAIN a THEN a ELSE Set(a, "complete", "[\"none\"]") IN
  [ n |-> p.n, a |-> IF "repeatable" \in DOMAIN b /\ b.repeatable = False THEN Without(b, "repeatable") ELSE b ]
CanonDoc(d) == [ prog |-> d.prog, a |-> Keep(d.a), o |-> [ j \in DOMAIN d.o |-> CanonOpt(d.o[j]) ], p |-> [ j \in DOMAIN d.p |-> CanonPos(d.p[j]) ] ]

Parent(prog) == LET i == LastIndex(prog, " ") IN IF i = 0 THEN "" ELSE Upto(prog, i - 1)
\* depth first, siblings in the order of the file
RECURSIVE Walk(_, _)
Walk(docs, prog) ==
  LET me  == SelectSeq(docs, LAMBDA d : d.prog = prog)
      sub == SelectSeq(docs, LAMBDA d : Parent(d.prog) = prog)
      RECURSIVE All(_)
      All(l) == IF l = <<>> THEN <<>> ELSE Walk(docs, Head(l).prog) \o All(Tail(l)) IN
  me \o All(sub)
Root(docs) == docs[CHOOSE i \in DOMAIN docs : Parent(docs[i].prog) = ""].prog
Canon(f) == LET docs == Inline(f.docs, f.defs) IN Walk([ i \in DOMAIN docs |-> CanonDoc(docs[i]) ], Root(docs))

-----------------------------------------------------------------------------
(* Settings of the command line and what they mean for a definition.         *)

OptAttr(a, s) ==
  CASE s.k = "disable" /\ s.v = "hidden"     -> Without(a, "hidden")
    [] s.k = "disable" /\ s.v = "final"      -> Without(a, "final")
    [] s.k = "disable" /\ s.v = "groups"     -> Without(a, "groups")
    [] s.k = "disable" /\ s.v = "when"       -> Without(a, "when")
    [] s.k = "disable" /\ s.v = "repeatable" -> Set(a, "repeatable", True)
    [] s.k = "repeatable-options" -> IF "repeatable" \in DOMAIN a THEN a ELSE Set(a, "repeatable", s.v)
    [] s.k = "long-option-argument-separator" -> IF "long_opt_arg_sep" \in DOMAIN a THEN a ELSE Set(a, "long_opt_arg_sep", "\"" \o s.v \o "\"")
    [] OTHER -> a
PosAttr(a, s) == IF s.k = "disable" /\ s.v = "when" THEN Without(a, "when") ELSE a
CmdAttr(a, s) ==
  LET k == CASE s.k = "abbreviate-commands" -> "abbreviate_commands"
             [] s.k = "abbreviate-options"  -> "abbreviate_options"
             [] s.k = "inherit-options"     -> "inherit_options"
             [] OTHER -> "" IN
  IF k = "" \/ k \in DOMAIN a THEN a ELSE Set(a, k, s.v)
Edited(docs, s) ==
  [ i \in DOMAIN docs |->
    [ prog |-> docs[i].prog, a |-> CmdAttr(docs[i].a, s),
      o |-> [ j \in DOMAIN docs[i].o |-> [ s |-> docs[i].o[j].s, a |-> OptAttr(docs[i].o[j].a, s) ] ],
      p |-> [ j \in DOMAIN docs[i].p |-> [ n |-> docs[i].p[j].n, a |-> PosAttr(docs[i].p[j].a, s) ] ] ] ]
\* A definition may not have an option that is both hidden and repeatable, whether the definition
\* or a setting says so.
Valid(docs) == \A i \in DOMAIN docs : \A j \in DOMAIN docs[i].o :
  LET a == docs[i].o[j].a IN ~("hidden" \in DOMAIN a /\ a.hidden = True /\ "repeatable" \in DOMAIN a /\ a.repeatable = True)

\* The defaults that hold where nothing is said at all.
Base == << [k |-> "repeatable-options", v |-> False], [k |-> "long-option-argument-separator", v |-> "both"],
           [k |-> "abbreviate-commands", v |-> False], [k |-> "abbreviate-options", v |-> False], [k |-> "inherit-options", v |-> False] >>
RECURSIVE EditAll(_, _)
EditAll(docs, ss) == IF ss = <<>> THEN docs ELSE EditAll(Edited(docs, Head(ss)), Tail(ss))
\* --disable overrides, so it comes first; then the global switches; then the defaults
Effective(docs, set) ==
  LET dis == SelectSeq(set, LAMBDA s : s.k = "disable")
      oth == SelectSeq(set, LAMBDA s : s.k # "disable") IN
  EditAll(docs, dis \o oth \o Base)

-----------------------------------------------------------------------------
VARIABLES def, file, set, hist
vars == <<def, file, set, hist>>
D == Defs[def]

Init == /\ def \in DOMAIN Defs
        /\ file = [ fmt |-> "yaml", form |-> "flow", docs |-> D.docs, defs |-> <<>> ]
        /\ set = D.set
        /\ hist = <<>>

Did(x) == hist' = Append(hist, x)
Name(n) == "define_" \o At("abcdefghij", n)

\* TLC runs this specification in simulation mode: actions pick their target at random.
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

Convert == \E t \in {"yaml", "json"} :
  /\ file' = [ fmt |-> t, form |-> "tool", docs |-> Canon(file), defs |-> <<>> ]
  /\ UNCHANGED <<def, set>> /\ Did(<<"convert", t>>)

Forms == {"yaml", "json"} \X {"flow", "block", "keys", "wide"}
Reform == \E f \in Pick(Forms \ {<<file.fmt, file.form>>}) :
  /\ file' = [ file EXCEPT !.fmt = f[1], !.form = f[2] ]
  /\ UNCHANGED <<def, set>> /\ Did(<<"write", f[1], f[2]>>)

\* Put the whole value of an attribute into a define (and every other use of the name stays what it was).
Written == IF file.form = "tool" THEN "flow" ELSE file.form
Where(d) == {<<"a", 1>>} \cup { <<"o", j>> : j \in DOMAIN d.o } \cup { <<"p", j>> : j \in DOMAIN d.p }
Attrs(i, x) == IF x[1] = "a" THEN file.docs[i].a ELSE IF x[1] = "o" THEN file.docs[i].o[x[2]].a ELSE file.docs[i].p[x[2]].a
PutAttr(i, x, k, v) == IF x[1] = "a" THEN [ file.docs EXCEPT ![i].a[k] = v ]
                       ELSE IF x[1] = "o" THEN [ file.docs EXCEPT ![i].o[x[2]].a[k] = v ] ELSE [ file.docs EXCEPT ![i].p[x[2]].a[k] = v ]
Targets == UNION { UNION { { <<i, x, k>> : k \in DOMAIN Attrs(i, x) \ {"_"} } : x \in Where(file.docs[i]) } : i \in DOMAIN file.docs }
Define ==
  /\ Len(file.defs) < 3
  /\ \E t \in Pick(Targets) :
       LET n == Name(Len(file.defs) + 1)
           v == Attrs(t[1], t[2])[t[3]] IN
       /\ file' = [ file EXCEPT !.docs = PutAttr(t[1], t[2], t[3], "\"" \o n \o "\""),
                                !.defs = Append(file.defs, [n |-> n, v |-> SubstAll(v, file.defs)]), !.form = Written ]
       /\ UNCHANGED <<def, set>> /\ Did(<<"define", t[3]>>)
\* Put a string inside a completer into a define
DefinePart ==
  /\ Len(file.defs) < 3
  /\ \E w \in Pick(Range(D.words)) : \E t \in Pick({ t \in Targets : t[3] = "complete" /\ Find(Attrs(t[1], t[2])[t[3]], w, 1) > 0 }) :
       LET n == Name(Len(file.defs) + 1)
           v == Attrs(t[1], t[2])[t[3]]
           y == Find(v, w, 1) IN
       /\ file' = [ file EXCEPT !.docs = PutAttr(t[1], t[2], t[3], Upto(v, y - 1) \o "\"" \o n \o "\"" \o From(v, y + Len(w))),
                                !.defs = Append(file.defs, [n |-> n, v |-> w]), !.form = Written ]
       /\ UNCHANGED <<def, set>> /\ Did(<<"define part", w>>)

\* `groups: ["x"]` was once written `group: "x"`
Regroup == \E i \in Pick(DOMAIN file.docs) : \E j \in DOMAIN file.docs[i].o :
  LET a == file.docs[i].o[j].a IN
  /\ "groups" \in DOMAIN a /\ Pfx("[", a.groups) /\ Index(a.groups, ",") = 0 /\ Len(a.groups) > 4
  /\ file.fmt = "json"       \* the YAML schema knows `groups` only
  /\ file' = [ file EXCEPT !.docs[i].o[j].a = Set(Without(a, "groups"), "group", SubSeq(a.groups, 2, Len(a.groups) - 1)), !.form = Written ]
  /\ UNCHANGED <<def, set>> /\ Did(<<"group", file.docs[i].o[j].s>>)

\* Say a default explicitly
Explicit == \E i \in Pick(DOMAIN file.docs) : \E j \in Pick(DOMAIN file.docs[i].o) : \E k \in Pick( {"final", "hidden", "optional_arg", "nosort", "when", "capture", "metavar"}) :
  LET a == file.docs[i].o[j].a IN
  /\ k \notin DOMAIN a
  /\ file' = [ file EXCEPT !.docs[i].o[j].a = Set(a, k, IF k \in {"when", "capture", "metavar"} THEN Null ELSE False), !.form = Written ]
  /\ UNCHANGED <<def, set>> /\ Did(<<"explicit", k>>)

\* Exchange neighbouring documents, parents before children
Swap == \E i \in Pick(1..Len(file.docs) - 1) :
  LET x == file.docs[i]  y == file.docs[i + 1] IN
  /\ Parent(y.prog) # x.prog
  /\ file' = [ file EXCEPT !.docs[i] = y, !.docs[i + 1] = x, !.form = Written ]
  /\ UNCHANGED <<def, set>> /\ Did(<<"swap", i>>)

\* Move a setting from the command line into the definition
Bake == \E n \in Pick(DOMAIN set) :
  LET s == set[n]
      docs == Edited(Canon(file), s) IN
  /\ Valid(docs)
  /\ file' = [ fmt |-> file.fmt, form |-> Written, docs |-> docs, defs |-> <<>> ]
  /\ set' = SubSeq(set, 1, n - 1) \o SubSeq(set, n + 1, Len(set))
  /\ UNCHANGED def /\ Did(<<"bake", s.k, s.v>>)

Next == \/ "convert" \in Range(D.acts) /\ Convert
        \/ "rewrite" \in Range(D.acts) /\ (Reform \/ Define \/ DefinePart \/ Regroup \/ Explicit)
        \/ "swap" \in Range(D.acts) /\ Swap
        \/ "bake" \in Range(D.acts) /\ Bake
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties                                                            *)

Meaning(docs) == Range(docs)      \* documents in any order
Orig(i) == [ fmt |-> "yaml", form |-> "flow", docs |-> Defs[i].docs, defs |-> <<>> ]
OrigEff == [ i \in DOMAIN Defs |-> Meaning(Effective(Canon(Orig(i)), Defs[i].set)) ]

\* C17, C22, C16: however it was written or converted, and whichever settings are on the command line and which
\* in the definition, a definition means what it meant
\* C17: converting what conversion wrote changes nothing
Inv == LET c == TLCEval(Canon(file))
           e == TLCEval(Effective(c, set)) IN
  /\ Meaning(e) = OrigEff[def]
  /\ file.form = "tool" => c = file.docs
  /\ Canon([ file EXCEPT !.docs = c, !.defs = <<>> ]) = c
  /\ Serialize(ToJson([ d |-> D.id, h |-> hist, f |-> file, s |-> set, c |-> c, e |-> e, ok |-> Valid(e) ]) \o "\n", EmitFile,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
