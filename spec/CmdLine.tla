------------------------------ MODULE CmdLine ------------------------------
(* The command line as a state machine.                                      *)
(*                                                                           *)
(* A user types complete words one after the other (action TypeWord).  The   *)
(* state carries what the words given so far mean (ParseState); Offer says   *)
(* which candidates a completion script has to offer for the word under the  *)
(* cursor.  The definitions explored are data: the JSON file CC_DEFS.        *)
EXTENDS Values, Integers, Json, IOUtils

Defs == JsonDeserialize(IOEnv.CC_DEFS)

-----------------------------------------------------------------------------
(* Effective definition: the configuration is applied to the definition.     *)

Bool3(x, dflt) == IF x = "I" THEN dflt ELSE x = "T"
Off(d, f) == f \in Range(d.cfg.disable)

EffOpt(d, o) ==
  [ s      |-> o.s,
    arg    |-> o.arg,
    comp   |-> o.comp,
    rep    |-> IF Off(d, "repeatable") THEN TRUE ELSE Bool3(o.rep, d.cfg.rep),
    final  |-> ~Off(d, "final") /\ o.final,
    hidden |-> ~Off(d, "hidden") /\ o.hidden,
    groups |-> IF Off(d, "groups") THEN {} ELSE Range(o.groups),
    when   |-> IF Off(d, "when") THEN [op |-> "true"] ELSE o.when,
    sep    |-> IF o.sep = "I" THEN d.cfg.sep ELSE o.sep ]

EffPos(d, p) ==
  [ n |-> p.n, comp |-> p.comp, rep |-> p.rep,
    when |-> IF Off(d, "when") THEN [op |-> "true"] ELSE p.when ]

RECURSIVE PathOf(_, _)
PathOf(d, c) == IF c = 1 THEN <<1>> ELSE Append(PathOf(d, d.cmds[c].parent), c)

MaxNum(ps) == IF ps = <<>> THEN 0 ELSE Max({ ps[i].n : i \in DOMAIN ps })

\* Number of positional words consumed before the positionals of command c:
\* the positionals and the command slot of every ancestor.
RECURSIVE Base(_, _)
Base(d, c) == IF c = 1 THEN 0
              ELSE LET p == d.cmds[c].parent IN Base(d, p) + MaxNum(d.cmds[p].poss) + 1

EffCmd(d, c) ==
  LET x == d.cmds[c] IN
  [ name  |-> x.name,
    als   |-> Range(x.aliases),
    par   |-> x.parent,
    path  |-> PathOf(d, c),
    opts  |-> TLCEval([ i \in 1..Len(x.opts) |-> EffOpt(d, x.opts[i]) ]),
    poss  |-> TLCEval([ i \in 1..Len(x.poss) |-> EffPos(d, x.poss[i]) ]),
    base  |-> Base(d, c),
    kids  |-> { k \in 1..Len(d.cmds) : d.cmds[k].parent = c /\ k # 1 },
    inh   |-> Bool3(x.inh, d.cfg.inh),
    abbrC |-> Bool3(x.abbrC, d.cfg.abbrC),
    abbrO |-> Bool3(x.abbrO, d.cfg.abbrO) ]

EffDef(d) == [ id |-> d.id, stack |-> d.cfg.stack, shells |-> d.shells,
               c  |-> TLCEval([ c \in 1..Len(d.cmds) |-> TLCEval(EffCmd(d, c)) ]) ]

\* Computed once, before the exploration (TLC re-evaluates definitions that use recursion).
EDef == TLCEval([ i \in 1..Len(Defs) |-> TLCEval(EffDef(Defs[i])) ])
ASSUME TLCSet(1, EDef)
E == TLCGet(1)

-----------------------------------------------------------------------------
(* Options visible in a command: its own, plus all its ancestors' if it      *)
(* inherits.  An option is referred to as <<command, index>>.                *)

OptRefs(e, c) == { <<c, i>> : i \in DOMAIN e.c[c].opts }
RawVis(e, c) == IF e.c[c].inh THEN UNION { OptRefs(e, a) : a \in Range(e.c[c].path) } ELSE OptRefs(e, c)
ASSUME TLCSet(2, TLCEval([ i \in DOMAIN E |-> TLCEval([ c \in DOMAIN E[i].c |-> TLCEval(RawVis(E[i], c)) ]) ]))
VisTab == TLCGet(2)
VARIABLES def, words, ps, depth
vars == <<def, words, ps, depth>>

e == E[def]
Opt(r) == E[def].c[r[1]].opts[r[2]]
Vis(c) == VisTab[def][c]
Strs(r) == Range(Opt(r).s)

IsShort(s) == Len(s) = 2 /\ At(s, 1) = "-" /\ At(s, 2) # "-"
IsLong(s)  == Len(s) > 2 /\ Upto(s, 2) = "--"
IsOld(s)   == Len(s) > 2 /\ At(s, 1) = "-" /\ At(s, 2) # "-"

\* Innermost definition wins when an inherited option has the same string.
FindIn(c, s) ==
  LET m == { r \in Vis(c) : s \in Strs(r) } IN
  IF m = {} THEN {} ELSE { CHOOSE r \in m : \A q \in m : Len(e.c[r[1]].path) >= Len(e.c[q[1]].path) }
The(S) == CHOOSE x \in S : TRUE

\* Abbreviations: an unambiguous beginning of at least 3 characters of one long or old-style option.
AllLong(c) == { s \in UNION { Strs(r) : r \in Vis(c) } : ~IsShort(s) }
ExpandOpt(c, w) ==
  IF FindIn(c, w) # {} \/ ~e.c[c].abbrO \/ Len(w) < 3 THEN w
  ELSE LET m == { s \in AllLong(c) : Pfx(w, s) } IN IF Cardinality(m) = 1 THEN The(m) ELSE w
FindName(c, w) == LET x == ExpandOpt(c, w) IN IF IsShort(x) THEN {} ELSE FindIn(c, x)

-----------------------------------------------------------------------------
(* Meaning of the words typed so far.                                        *)

NoVal == "<none>"
PS0 == [ cmd |-> 1, pos |-> <<>>, given |-> <<>>, eoo |-> FALSE, pend |-> <<>>, ddp |-> 0 ]
Give(s, r, v) == [ s EXCEPT !.given = Append(@, [r |-> r, v |-> v]) ]

Names(c, k) == \* words that select the subcommand k of c
  LET n == e.c[k].name
      all == { e.c[j].name : j \in e.c[c].kids } IN
  {n} \cup e.c[k].als \cup
  (IF e.c[k].abbrC
   THEN { p \in Prefixes(n) : p # "" /\ \A m \in all \ {n} : ~Pfx(p, m) } ELSE {})
Slot(c) == e.c[c].base + MaxNum(e.c[c].poss) + 1
KidFor(c, w) == { k \in e.c[c].kids : w \in Names(c, k) }

AddPos(s, w) ==
  LET p == Append(s.pos, w)
      k == IF e.c[s.cmd].kids # {} /\ Len(p) = Slot(s.cmd) THEN KidFor(s.cmd, w) ELSE {} IN
  [ s EXCEPT !.pos = p, !.cmd = IF k = {} THEN @ ELSE The(k) ]

RECURSIVE Cluster(_, _, _)
Cluster(s, w, i) ==
  IF i > Len(w) THEN s
  ELSE LET m == FindIn(s.cmd, "-" \o At(w, i)) IN
       IF m = {} THEN Cluster(s, w, i + 1)
       ELSE LET r == The(m) IN
            CASE Opt(r).arg = "none" -> Cluster(Give(s, r, NoVal), w, i + 1)
              [] Opt(r).arg = "req"  -> IF i < Len(w) THEN Give(s, r, From(w, i + 1)) ELSE [ s EXCEPT !.pend = r ]
              [] Opt(r).arg = "opt"  -> Give(s, r, IF i < Len(w) THEN From(w, i + 1) ELSE NoVal)

Step(s, w) ==
  IF s.pend # <<>> THEN [ Give(s, s.pend, w) EXCEPT !.pend = <<>> ]
  ELSE IF s.eoo THEN AddPos(s, w)
  ELSE IF w = "--" THEN [ s EXCEPT !.eoo = TRUE, !.ddp = Len(s.pos) ]
  ELSE IF Pfx("-", w) /\ Len(w) > 1 THEN
     LET full == FindName(s.cmd, w)
         q    == Index(w, "=")
         nm   == IF q > 1 THEN FindName(s.cmd, Upto(w, q - 1)) ELSE {} IN
     IF full # {} THEN
        LET r == The(full) IN
        IF Opt(r).arg = "req" /\ Opt(r).sep # "equals" THEN [ s EXCEPT !.pend = r ] ELSE Give(s, r, NoVal)
     ELSE IF nm # {} /\ Opt(The(nm)).arg # "none" THEN Give(s, The(nm), From(w, q + 1))
     ELSE Cluster(s, w, 2)
  ELSE AddPos(s, w)

-----------------------------------------------------------------------------
(* Conditions                                                                *)

GivenRefs(s) == { s.given[i].r : i \in DOMAIN s.given }
Has(s, r) == \E i \in DOMAIN s.given : s.given[i].r = r

\* occurrences (in order) of options that carry one of the strings S
RECURSIVE OccFrom(_, _, _)
OccFrom(s, S, i) == IF i > Len(s.given) THEN <<>>
                    ELSE IF Strs(s.given[i].r) \cap S # {}
                         THEN <<s.given[i].v>> \o OccFrom(s, S, i + 1) ELSE OccFrom(s, S, i + 1)
Occ(s, S) == OccFrom(s, S, 1)

Cmp(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                   [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
NC(x, nocase) == IF nocase THEN Lower(x) ELSE x

RECURSIVE Holds(_, _)
Holds(s, w) ==
  CASE w.op = "true" -> TRUE
    [] w.op = "and"  -> Holds(s, w.l) /\ Holds(s, w.r)
    [] w.op = "or"   -> Holds(s, w.l) \/ Holds(s, w.r)
    [] w.op = "not"  -> ~Holds(s, w.l)
    [] w.op = "has_option" -> Occ(s, Range(w.opts)) # <<>>
    [] w.op = "option_is" ->
         LET occ == Occ(s, Range(w.opts))
             good(v) == \E x \in Range(w.vals) : NC(x, w.nocase) = NC(v, w.nocase) IN
         IF w.any THEN \E i \in DOMAIN occ : good(occ[i])
         ELSE occ # <<>> /\ good(occ[Len(occ)])
    [] w.op = "positional_count" -> Cmp(w.cmp, Len(s.pos), w.n)
    [] w.op = "positional_contains" ->
         Len(s.pos) >= w.n /\ \E x \in Range(w.vals) : NC(x, w.nocase) = NC(s.pos[w.n], w.nocase)

-----------------------------------------------------------------------------
(* What is offered                                                           *)

Conflicts(r) == IF Opt(r).groups = {} THEN {}
                ELSE { q \in OptRefs(e, r[1]) : q # r /\ Opt(q).groups \cap Opt(r).groups # {} }
FinalGiven(s) == \E r \in GivenRefs(s) : Opt(r).final

\* The command accepts option r now (and its argument is completed).
Usable(s, r) ==
  /\ Opt(r).rep \/ ~Has(s, r)
  /\ ~\E q \in Conflicts(r) : Has(s, q)
  /\ ~FinalGiven(s)
  /\ Holds(s, Opt(r).when)
Offerable(s, r) == ~Opt(r).hidden /\ Usable(s, r)

OfferedRefs(s) == IF s.eoo \/ s.pend # <<>> THEN {} ELSE { r \in Vis(s.cmd) : Offerable(s, r) }
OfferedOpts(s) == UNION { Strs(r) : r \in OfferedRefs(s) }

\* The positional the next word would be (at most one; a repeatable one takes the rest).
NextPos(s) ==
  LET n == Len(s.pos) + 1
      m == { <<c, i>> \in UNION { { <<c, i>> : i \in DOMAIN e.c[c].poss } : c \in Range(e.c[s.cmd].path) } :
               LET p == e.c[c].poss[i]
                   k == e.c[c].base + p.n IN IF p.rep THEN n >= k ELSE n = k } IN
  { x \in m : Holds(s, e.c[x[1]].poss[x[2]].when) }

PosVals(s, t) ==
  UNION { Vals(e.c[x[1]].poss[x[2]].comp, t) : x \in NextPos(s) }
  \cup (IF e.c[s.cmd].kids # {} /\ Len(s.pos) + 1 = Slot(s.cmd)
        THEN { n \in UNION { {e.c[k].name} \cup e.c[k].als : k \in e.c[s.cmd].kids } : Pfx(t, n) }
        ELSE {})

Pre(p, S) == { p \o x : x \in S }

\* argument of a cluster: "-xyVAL" where x.. are flags and y takes an argument
\* (z: the state without the word under the cursor, whose flags do not count for conditions)
RECURSIVE ClusterArg(_, _, _, _)
ClusterArg(z, s, t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET m == FindIn(s.cmd, "-" \o At(t, i)) IN
       IF m = {} THEN <<>>
       ELSE IF ~Usable(s, The(m)) \/ ~Usable(z, The(m)) THEN <<>>
       ELSE IF Opt(The(m)).arg = "none" THEN ClusterArg(z, Give(s, The(m), NoVal), t, i + 1) ELSE <<The(m), i>>

\* [kind, candidates] for the word under the cursor.  kind "skip": nothing is claimed.
OfferT(s, t, oo) ==
  IF s.pend # <<>> THEN [ kind |-> IF Usable(s, s.pend) THEN "arg" ELSE "skip", c |-> Vals(Opt(s.pend).comp, t) ]
  ELSE IF ~s.eoo /\ Pfx("-", t) THEN
     LET q  == Index(t, "=")
         nm == IF q > 2 THEN FindName(s.cmd, Upto(t, q - 1)) ELSE {}
         isc == Len(t) > 1 /\ At(t, 2) # "-" /\ FindIn(s.cmd, Upto(t, 2)) # {} /\ FindName(s.cmd, t) = {}
         ca == IF Len(t) > 1 /\ At(t, 2) # "-" /\ FindName(s.cmd, t) = {} THEN ClusterArg(s, s, t, 2) ELSE <<>> IN
     IF nm # {} /\ Opt(The(nm)).arg # "none" /\ (Opt(The(nm)).arg = "opt" \/ Opt(The(nm)).sep # "space")
     THEN [ kind |-> IF Usable(s, The(nm)) THEN "eqarg" ELSE "skip", c |-> Pre(Upto(t, q), Vals(Opt(The(nm)).comp, From(t, q + 1))) ]
     ELSE IF isc /\ ca = <<>> THEN [ kind |-> "skip", c |-> {} ]   \* a cluster of flags, or with an unusable one
     ELSE IF ca # <<>>
     THEN IF \E o \in UNION { Strs(r) : r \in Vis(s.cmd) } : Pfx(t, o) /\ o # t
          THEN [ kind |-> "skip", c |-> {} ]   \* ambiguous: could also become an old-style option
          ELSE [ kind |-> IF Opt(ca[1]).arg = "opt" THEN "shortopt" ELSE "shortarg", c |-> Pre(Upto(t, ca[2]), Vals(Opt(ca[1]).comp, From(t, ca[2] + 1))) ]
     ELSE [ kind |-> "opts", c |-> { o \in oo : Pfx(t, o) } ]
  ELSE [ kind |-> IF FinalGiven(s) THEN "skip" ELSE "pos", c |-> PosVals(s, t) ]
Offer(s, t) == OfferT(s, t, OfferedOpts(s))

\* The completers that complete the token t, and the part of t before their argument.
CompsAt(s, t) ==
  IF s.pend # <<>> THEN { <<Opt(s.pend).comp, "">> }
  ELSE IF ~s.eoo /\ Pfx("-", t) THEN
     LET q  == Index(t, "=")
         nm == IF q > 2 THEN FindName(s.cmd, Upto(t, q - 1)) ELSE {}
         ca == IF Len(t) > 1 /\ At(t, 2) # "-" /\ FindName(s.cmd, t) = {} THEN ClusterArg(s, s, t, 2) ELSE <<>> IN
     IF nm # {} THEN { <<Opt(The(nm)).comp, Upto(t, q)>> } ELSE IF ca # <<>> THEN { <<Opt(ca[1]).comp, Upto(t, ca[2])>> } ELSE {}
  ELSE { <<e.c[x[1]].poss[x[2]].comp, "">> : x \in NextPos(s) }
CompleteTok(X, t) == \E x \in X : Complete(x[1], From(t, Len(x[2]) + 1))
DupTok(X, t) == UNION { Pre(x[2], Dups(x[1], From(t, Len(x[2]) + 1))) : x \in X }
MayTok(X, t)  == UNION { Pre(x[2], MayVals(x[1], From(t, Len(x[2]) + 1))) : x \in X }
SepTok(X, t)  == UNION { { <<x[2] \o v, SepOf(x[1])>> : v \in WithSep(x[1], From(t, Len(x[2]) + 1)) } : x \in X }

-----------------------------------------------------------------------------
(* States for which nothing is claimed about a shell (limits of the shell's  *)
(* own completion system, not of the generated script).                      *)
(*  - fish completes the argument of an old-style option with an optional     *)
(*    argument also in the next word                                         *)
(*  - fish reads the inline argument of a short option with an optional       *)
(*    argument as further short options                                       *)
(*  - fish knows the short options of the program, not of the subcommand: a   *)
(*    letter that takes an argument in another command ends a cluster        *)
(*  - zsh's _arguments counts a "--" that follows a positional as positional *)
AllRefs == UNION { OptRefs(e, c) : c \in DOMAIN e.c }
PooledArity(w) == \E i \in 2..Len(w) - 1 : \E r \in AllRefs : ("-" \o At(w, i)) \in Strs(r) /\ Opt(r).arg # "none"
Unclaimed(s) ==
  (IF s.ddp > 0 THEN {"zsh"} ELSE {})
  \cup (IF words # <<>> /\ s.given # <<>> /\ (IsOld(words[Len(words)]) \/ (~E[def].stack /\ IsShort(words[Len(words)]))) /\ s.pend = <<>>
           /\ LET g == s.given[Len(s.given)] IN g.v = NoVal /\ Opt(g.r).arg = "opt" /\ words[Len(words)] \in Strs(g.r)
        THEN {"fish"} ELSE {})
  \cup (IF words # <<>> /\ s.given # <<>> /\ s.pend = <<>>
           /\ LET g == s.given[Len(s.given)]
                  w == words[Len(words)] IN
              /\ g.v # NoVal /\ Opt(g.r).arg = "opt" /\ At(w, 1) = "-" /\ At(w, 2) # "-" /\ Index(w, "=") = 0
              /\ \E r \in AllRefs : Opt(r).arg = "req" /\ ("-" \o At(w, Len(w))) \in Strs(r)
        THEN {"fish"} ELSE {})
  \cup (IF words # <<>> /\ s.pend # <<>> /\ IsOld(words[Len(words)]) /\ words[Len(words)] \notin Strs(s.pend)
           /\ PooledArity(words[Len(words)])
        THEN {"fish"} ELSE {})

\* Offered strings behind which the argument follows after "=" (bash and zsh).
EqStrs(s) == UNION { { o \in Strs(r) : ~IsShort(o) } : r \in { q \in Vis(s.cmd) :
               Opt(q).arg = "opt" \/ (Opt(q).arg = "req" /\ Opt(q).sep # "space") } }

\* Candidates a shell may offer in addition / leave out without contradicting the specification:
\*  - fish offers a hidden option (its strings that begin with the word) once one of its strings is typed out;
\*  - fish reads what follows a short option with an optional argument as further flags, too.
May(s, t) ==
  { o \in UNION { Strs(r) : r \in { q \in Vis(s.cmd) : Opt(q).hidden /\ t \in Strs(q) } } : Pfx(t, o) }
\*    whatever the subcommand: fish knows the short options of the program, not of the subcommand.
FishSkips(s, t, kind) ==
  \/ kind = "opts" /\ IsOld(t) /\ \E r \in AllRefs : Upto(t, 2) \in Strs(r)
  \/ kind \in {"shortarg", "shortopt"} /\ (~E[def].stack \/ \E i \in 2..Len(t) - 1 :
     LET m  == FindIn(s.cmd, "-" \o At(t, i))
         ar == { Opt(r).arg : r \in { q \in AllRefs : ("-" \o At(t, i)) \in Strs(q) } } IN
     m # {} /\ IF Opt(The(m)).arg = "none" THEN ar # {"none"}
               ELSE ar # {"req"} /\ \E r \in AllRefs : ("-" \o At(t, i + 1)) \in Strs(r))
=============================================================================
