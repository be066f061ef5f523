----------------------------- MODULE MCCmdLine -----------------------------
(* Exploration of CmdLine: which words are typed, which tokens are queried,  *)
(* the invariants, and the emission of every visited state for the replay.   *)
EXTENDS CmdLine

CONSTANTS EmitFile
MaxLen == Defs[def].depth

-----------------------------------------------------------------------------
(* Words a user may type next: well-formed continuations.                    *)

Sample(comp) == IF comp.k = "choices" THEN Range(comp.v) ELSE Texts(comp)
ArgWords(r) ==   \* argument values typed for option r
  Sample(Opt(r).comp) \cup { Defs[def].argw[i] : i \in DOMAIN Defs[def].argw }

OptWords(s) ==
  UNION { UNION {
    LET o == x IN
    IF Opt(r).arg = "none" THEN {o}
    ELSE IF IsShort(o)
         THEN (IF Opt(r).arg = "req" THEN {o} ELSE {o}) \cup { o \o v : v \in ArgWords(r) \ {""} }
         ELSE (IF Opt(r).arg = "opt" \/ Opt(r).sep # "equals" THEN {o} ELSE {})
              \cup (IF Opt(r).sep # "space" \/ Opt(r).arg = "opt" THEN { o \o "=" \o v : v \in ArgWords(r) } ELSE {})
    : x \in Strs(r) } : r \in Vis(s.cmd) }

NoArgs(s) == { o \in UNION { Strs(r) : r \in { q \in Vis(s.cmd) : Opt(q).arg = "none" } } : IsShort(o) }
ShortArgs(s) == { <<o, r>> \in UNION { { <<x, q>> : x \in { y \in Strs(q) : IsShort(y) } }
                                        : q \in { q \in Vis(s.cmd) : Opt(q).arg # "none" } } : TRUE }
Stack(s) == IF ~E[def].stack THEN {} ELSE
  { f \o At(g, 2) : f \in NoArgs(s), g \in NoArgs(s) }
  \cup UNION { { f \o At(x[1], 2) : f \in NoArgs(s) } : x \in ShortArgs(s) }
  \cup UNION { UNION { { f \o At(x[1], 2) \o v : f \in NoArgs(s) } : v \in ArgWords(x[2]) \ {""} } : x \in ShortArgs(s) }
Abbrevs(s) == IF ~e.c[s.cmd].abbrO THEN {} ELSE
  { w \in UNION { Prefixes(o) : o \in AllLong(s.cmd) } : Len(w) >= 3 /\ FindIn(s.cmd, w) = {} /\ FindName(s.cmd, w) # {} }

PosWords(s) ==
  IF e.c[s.cmd].kids # {} /\ Len(s.pos) + 1 = Slot(s.cmd)
  THEN UNION { Names(s.cmd, k) : k \in e.c[s.cmd].kids }
  ELSE IF NextPos(s) = {} THEN {}
  ELSE LET vs == UNION { Sample(e.c[x[1]].poss[x[2]].comp) : x \in NextPos(s) } IN
       vs \cup { Defs[def].posw[i] : i \in DOMAIN Defs[def].posw }

OldClash(s, w) == \* a cluster that is also an old-style option (or its beginning) is not typed
  IsOld(w) /\ Index(w, "=") = 0 /\ \E o \in AllLong(s.cmd) : IsOld(o) /\ Pfx(o, w) /\ o # w

Typed(s) ==
  IF s.pend # <<>> THEN ArgWords(s.pend)
  ELSE IF s.eoo THEN PosWords(s) \cup (IF NextPos(s) = {} THEN {} ELSE { Defs[def].eoow[i] : i \in DOMAIN Defs[def].eoow })
  ELSE { w \in OptWords(s) \cup Stack(s) \cup Abbrevs(s) : ~OldClash(s, w) } \cup PosWords(s)
       \cup (IF Defs[def].dashdash THEN {"--"} ELSE {})

\* Every option a word gives is one the command accepts at that point.
WellFormed(s, w) ==
  LET n  == Step(s, w)
      k  == Len(s.given)
      at(i) == [ s EXCEPT !.given = SubSeq(n.given, 1, i) ] IN
  /\ \A i \in k + 1..Len(n.given) : n.given[i].r = s.pend \/ Usable(at(i - 1), n.given[i].r)
  /\ n.pend # <<>> => Usable(at(Len(n.given)), n.pend)

Words(s) == IF Defs[def].words # <<>> THEN IF words = <<>> THEN Range(Defs[def].words) ELSE {}
            ELSE IF Defs[def].script = <<>> THEN { w \in Typed(s) : WellFormed(s, w) }
            ELSE IF Len(words) < Len(Defs[def].script) THEN {Defs[def].script[Len(words) + 1]} ELSE {}

-----------------------------------------------------------------------------
(* Tokens under the cursor that are queried in a state.                      *)

Begin(S) == UNION { { Upto(x, i) : i \in 1..Len(x) } : x \in S }
First(S) == { Upto(x, 1) : x \in { y \in S : y # "" } }
\* beginnings of an argument that are queried
ArgToks(comp) == IF comp.k = "choices" THEN First(Range(comp.v)) ELSE Begin(Texts(comp))

OptTokens(s) ==
  {"-", "--"}
  \cup { Upto(o, k) : o \in { o \in UNION { Strs(r) : r \in Vis(s.cmd) } : IsLong(o) }, k \in {3, 5, 99} }
  \cup { o \in UNION { Strs(r) : r \in Vis(s.cmd) } : IsOld(o) }
  \cup UNION { UNION { IF IsShort(o)
                       THEN { o } \cup { o \o v : v \in ArgToks(Opt(r).comp) }
                            \cup (IF E[def].stack THEN { f \o At(o, 2) : f \in NoArgs(s) } ELSE {})
                       ELSE IF Opt(r).sep = "space" /\ Opt(r).arg = "req" THEN {}
                       ELSE { o \o "=" } \cup { o \o "=" \o v : v \in ArgToks(Opt(r).comp) }
                       : o \in Strs(r) } : r \in { q \in Vis(s.cmd) : Opt(q).arg # "none" } }

Tokens(s) ==
  IF s.pend # <<>> THEN {""} \cup ArgToks(Opt(s.pend).comp)
  ELSE {""} \cup UNION { ArgToks(e.c[x[1]].poss[x[2]].comp) : x \in NextPos(s) } \cup First(PosVals(s, "")) \cup PosVals(s, "")
       \cup (IF e.c[s.cmd].kids # {} /\ Len(s.pos) + 1 = Slot(s.cmd) THEN UNION { Names(s.cmd, k) : k \in e.c[s.cmd].kids } ELSE {}) \cup (IF s.eoo THEN {"-"} ELSE OptTokens(s))

-----------------------------------------------------------------------------
(* Behaviour                                                                 *)

Init == /\ def \in DOMAIN E
        /\ words = <<>>
        /\ ps = PS0
        /\ depth = 0
TypeWord == /\ depth < MaxLen
            /\ \E w \in Words(ps) : /\ words' = Append(words, w)
                                    /\ ps' = Step(ps, w)
            /\ depth' = depth + 1
            /\ UNCHANGED def
Next == TypeWord
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the specification                                           *)

All(s) == UNION { Offer(s, t).c : t \in {"-", "--"} }
OccRef(r) == { i \in DOMAIN ps.given : ps.given[i].r = r }

InvC01 == \A r \in Vis(ps.cmd) : (~Opt(r).rep /\ OccRef(r) # {}) => Strs(r) \cap Offer(ps, "-").c = {}
InvC02 == \A r \in Vis(ps.cmd) : \A q \in GivenRefs(ps) :
            (q # r /\ q[1] = r[1] /\ Opt(q).groups \cap Opt(r).groups # {}) => Strs(r) \cap Offer(ps, "-").c = {}
InvC03 == (~ps.eoo /\ ps.pend = <<>> /\ FinalGiven(ps)) => Offer(ps, "-").c = {}
InvC04 == \A r \in Vis(ps.cmd) : Opt(r).hidden /\ ps.pend = <<>> /\ ~ps.eoo => Strs(r) \cap Offer(ps, "-").c = {}
InvC05 == \A r \in Vis(ps.cmd) : (ps.pend = <<>> /\ ~ps.eoo /\ Strs(r) \cap Offer(ps, "-").c # {}) => Holds(ps, Opt(r).when)
\* every typed word is accounted for exactly once
InvC07 == /\ Len(ps.pos) <= Len(words)
          /\ ps.eoo /\ ps.pend = <<>> => \A o \in Offer(ps, "-").c : FindIn(ps.cmd, o) = {}
InvC08 == ps.pend # <<>> => Opt(ps.pend).arg = "req" /\ Offer(ps, "").kind = "arg"
InvC06 == ps.cmd = 1 \/ e.c[ps.cmd].par \in Range(e.c[ps.cmd].path)
StepC06 == [][ps'.cmd # ps.cmd => ps.cmd = e.c[ps'.cmd].par /\ Len(ps'.pos) = Len(ps.pos) + 1]_vars
StepC07 == [][ps.eoo => ps'.eoo /\ ps'.given = ps.given /\ ps'.pos = Append(ps.pos, words'[Len(words')])]_vars
StepMono == [][Len(ps'.given) >= Len(ps.given) /\ SubSeq(ps'.given, 1, Len(ps.given)) = ps.given]_vars

-----------------------------------------------------------------------------
(* Emission                                                                  *)

Line(s) == LET oo == TLCEval(OfferedOpts(s)) IN
           ToJson([ d |-> E[def].id, w |-> words, x |-> Unclaimed(s),
                    q |-> { LET o == OfferT(s, t, oo)
                                x == IF Defs[def].rich THEN CompsAt(s, t) ELSE {} IN
                           <<t, IF CompleteTok(x, t) THEN "skip" ELSE o.kind, o.c, May(s, t) \cup MayTok(x, t), IF FishSkips(s, t, o.kind) THEN {"fish"} ELSE {},
                             IF o.kind = "opts" THEN o.c \cap EqStrs(s) ELSE {},
                             SepTok(x, t), DupTok(x, t)>>
                           : t \in Tokens(s) } ]) \o "\n"
Emit == EmitFile = "" \/ LET l == TLCEval(Line(ps)) IN
        Len(l) > 0 /\ Serialize(l, EmitFile, [format |-> "TXT", charset |-> "UTF-8",
                                       openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
EmitC == Emit
=============================================================================
