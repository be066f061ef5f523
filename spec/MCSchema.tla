------------------------------ MODULE MCSchema ------------------------------
(* Definition files that deviate from valid ones: every step changes one     *)
(* place of a document (simulated).                                          *)
EXTENDS Schema, Json, IOUtils
CONSTANT EmitFile
In == JsonDeserialize(IOEnv.CC_SCHEMA)      \* [bases, values, keys]
VARIABLES base, docs, hist
vars == <<base, docs, hist>>

Node(t, s, n, k, v) == [t |-> t, s |-> s, n |-> n, k |-> k, v |-> v]
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION { { <<i>> \o p : p \in Paths(x.v[i]) } : i \in DOMAIN x.v }
RECURSIVE AtPath(_, _)
AtPath(x, p) == IF p = <<>> THEN x ELSE AtPath(x.v[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(x, p, y) == IF p = <<>> THEN y ELSE [ x EXCEPT !.v[p[1]] = Put(x.v[p[1]], Tail(p), y) ]
Drop(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Ins(l, i, y) == SubSeq(l, 1, i - 1) \o <<y>> \o SubSeq(l, i, Len(l))

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Init == base \in DOMAIN In.bases /\ docs = In.bases[base] /\ hist = <<>>
All == TLCEval(Paths(docs))     \* docs is one list of documents
Inner(t) == { p \in All : AtPath(docs, p).t = t /\ AtPath(docs, p).v # <<>> }
Did(x, p) == hist' = Append(hist, [what |-> x, path |-> p]) /\ UNCHANGED base

Replace == \E p \in Pick(All), n \in Pick(DOMAIN In.values) : docs' = Put(docs, p, In.values[n]) /\ Did("replace", p)
\* in the same kind of place: strings by strings, ...
Retype  == \E p \in Pick(All \ {<<>>}) : \E n \in Pick({ n \in DOMAIN In.values : In.values[n].t = AtPath(docs, p).t }) :
             docs' = Put(docs, p, In.values[n]) /\ Did("replace", p)
Graft   == \E p \in Pick(All \ {<<>>}), q \in Pick(All \ {<<>>}) : docs' = Put(docs, p, AtPath(docs, q)) /\ Did("graft", p)
Delete  == \E p \in Pick(Inner("l") \cup Inner("d")) : LET x == AtPath(docs, p) IN \E i \in Pick(DOMAIN x.v) :
             docs' = Put(docs, p, [ x EXCEPT !.v = Drop(@, i), !.k = IF x.t = "d" THEN Drop(@, i) ELSE @ ]) /\ Did("delete", Append(p, i))
AddItem == \E p \in Pick({ p \in All : AtPath(docs, p).t = "l" }), n \in Pick(DOMAIN In.values) : LET x == AtPath(docs, p) IN \E i \in Pick(1..Len(x.v) + 1) :
             docs' = Put(docs, p, [ x EXCEPT !.v = Ins(@, i, In.values[n]) ]) /\ Did("insert", p)
Double  == \E p \in Pick(Inner("l")) : LET x == AtPath(docs, p) IN \E i \in Pick(DOMAIN x.v) :
             docs' = Put(docs, p, [ x EXCEPT !.v = Append(@, @[i]) ]) /\ Did("double", p)
SwapTwo == \E p \in Pick(Inner("l")) : LET x == AtPath(docs, p) IN \E i \in Pick(1..Len(x.v) - 1) :
             docs' = Put(docs, p, [ x EXCEPT !.v = SubSeq(@, 1, i - 1) \o <<@[i + 1], @[i]>> \o SubSeq(@, i + 2, Len(@)) ]) /\ Did("swap", p)
AddKey  == \E p \in Pick({ p \in All : AtPath(docs, p).t = "d" }), n \in Pick(DOMAIN In.keys) :
             LET x == AtPath(docs, p)  k == In.keys[n] IN
             /\ ~HasKey(x, k)
             /\ \E m \in Pick(DOMAIN In.values) : docs' = Put(docs, p, [ x EXCEPT !.k = Append(@, k), !.v = Append(@, In.values[m]) ]) /\ Did("key " \o k, p)
Rename  == \E p \in Pick(Inner("d")) : LET x == AtPath(docs, p) IN \E i \in Pick(DOMAIN x.v), n \in Pick(DOMAIN In.keys) :
             /\ ~HasKey(x, In.keys[n])
             /\ docs' = Put(docs, p, [ x EXCEPT !.k[i] = In.keys[n] ]) /\ Did("rename to " \o In.keys[n], p)
\* A completer inside another one
IsComplete(p) == LET x == AtPath(docs, p) IN x.t = "l" /\ x.v # <<>> /\ x.v[1].t = "s" /\ Len(x.v[1].s) > 3
S(s) == Node("s", s, 0, <<>>, <<>>)
L(l) == Node("l", "", 0, <<>>, l)
Wrap    == \E p \in Pick({ p \in All : IsComplete(p) }), k \in Pick({"list", "prefix", "combine", "key_value_pair", "key_value_list"}) :
             LET x == AtPath(docs, p) IN
             /\ docs' = Put(docs, p, CASE k = "list" -> L(<<S("list"), x>>) [] k = "prefix" -> L(<<S("prefix"), S("p:"), x>>)
                                       [] k = "combine" -> L(<<S("combine"), L(<<x, L(<<S("user")>>)>>)>>)
                                       [] k = "key_value_pair" -> L(<<S(k), S("="), L(<<L(<<S("key"), S("descr"), x>>)>>)>>)
                                       [] OTHER -> L(<<S(k), S(","), S("="), L(<<L(<<S("one"), S("descr"), L(<<S("prefix"), S("p"), L(<<S("user")>>)>>)>>), L(<<S("key"), S("descr"), x>>)>>)>>))
             /\ Did("wrap " \o k, p)
Next == Replace \/ Retype \/ Graft \/ Delete \/ AddItem \/ Double \/ SwapTwo \/ AddKey \/ Rename \/ Wrap
Spec == Init /\ [][Next]_vars

\* Properties of the schema itself: the given definitions are valid; a list of documents is judged by its parts
Inv ==
  LET v == TLCEval(IF docs.t = "l" THEN Docs(docs.v) ELSE IF docs.t = "d" THEN 1 ELSE 2) IN
  /\ hist = <<>> => v = 0
  /\ docs.t = "l" => Docs(Append(docs.v, Node("z", "", 0, <<>>, <<>>))) = 2
  /\ Serialize(ToJson([ b |-> base, d |-> docs, v |-> v, h |-> hist ]) \o "\n", EmitFile,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
