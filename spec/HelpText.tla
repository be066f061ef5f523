------------------------------ MODULE HelpText ------------------------------
(* Help texts, written line by line, and what a reader must get out of them: *)
(* the options (strings, metavar, is the argument optional, description) and *)
(* the other lines, in order.                                                *)
EXTENDS Str, Json, IOUtils

CONSTANTS EmitFile, MaxLen
In == JsonDeserialize(IOEnv.CC_HELP)   \* [names: lists of option strings, metas: [text, meta], texts: words of descriptions, others, usages: [text, prog]]

VARIABLES text,      \* the help text
          opts,      \* its options
          others,    \* its other lines
          after,     \* "option": the last line belongs to an option; "other"
          n
vars == <<text, opts, others, after, n>>

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
RECURSIVE Blanks(_)
Blanks(k) == IF k = 0 THEN "" ELSE " " \o Blanks(k - 1)
Used == UNION { Range(opts[i].strs) : i \in DOMAIN opts }
NL == "\n"

\* How a metavar is attached: none, "=M", " M", "[=M]"
Attach(form, m) == CASE form = "none" -> "" [] form = "eq" -> "=" \o m [] form = "sp" -> " " \o m [] form = "opt" -> "[=" \o m \o "]"
\* the strings with their metavars; who: "last" or "all"
RECURSIVE Spell(_, _, _, _, _)
Spell(strs, delim, form, m, who) ==
  IF Len(strs) = 1 THEN strs[1] \o Attach(form, m)
  ELSE strs[1] \o (IF who = "all" THEN Attach(form, m) ELSE "") \o delim \o Spell(Tail(strs), delim, form, m, who)
\* the lines of a description, the following ones indented
RECURSIVE Lines(_, _)
Lines(ds, ind) == IF ds = <<>> THEN "" ELSE NL \o Blanks(ind) \o ds[1] \o Lines(Tail(ds), ind)
RECURSIVE Joined(_)
Joined(ds) == IF ds = <<>> THEN "" ELSE IF Len(ds) = 1 THEN ds[1] ELSE ds[1] \o (IF Sfx("-", ds[1]) THEN "" ELSE " ") \o Joined(Tail(ds))

\* A line that starts with a hyphen belongs to a description only when it is far right
Fits(ds, ind) == \A i \in DOMAIN ds : Pfx("-", ds[i]) => ind >= 10
Option == \E k \in Pick({ k \in DOMAIN In.names : Range(In.names[k]) \cap Used = {} }),
             ind \in Pick({1, 2, 2, 4, 6}), delim \in Pick({", ", ", ", ",", " | ", "|", " , "}), form \in Pick({"none", "eq", "sp", "opt", "eq"}),
             m \in Pick(DOMAIN In.metas), who \in Pick({"last", "last", "all"}), nd \in Pick(0..3), gap \in Pick({2, 3, 8, 20}), wrap \in Pick({5, 9, 10, 24}),
             below \in Pick({TRUE, FALSE, FALSE}), a \in Pick(DOMAIN In.texts), b \in Pick(DOMAIN In.texts), c \in Pick(DOMAIN In.texts) :
          LET ds == SubSeq(<<In.texts[a], In.texts[b], In.texts[c]>>, 1, nd)
              x  == In.metas[m]
              s  == Blanks(ind) \o Spell(In.names[k], delim, form, x.text, who) IN
          /\ Fits(IF below \/ ds = <<>> THEN ds ELSE Tail(ds), wrap)
          /\ (~below /\ ds # <<>>) => ~Pfx("-", ds[1])
          /\ text' = text \o s \o (IF ds = <<>> THEN "" ELSE IF below THEN Lines(ds, wrap) ELSE Blanks(gap) \o ds[1] \o Lines(Tail(ds), wrap)) \o NL
          /\ opts' = Append(opts, [strs |-> In.names[k], metavar |-> IF form = "none" THEN "" ELSE x.meta, optional |-> form = "opt", help |-> Joined(ds)])
          /\ after' = "option" /\ UNCHANGED others
\* other lines: behind an option only such that do not continue it
Other == \E o \in Pick({ o \in DOMAIN In.others : after = "other" \/ ~(Pfx(" ", In.others[o]) \/ Pfx("\t", In.others[o])) }) :
          /\ text' = text \o In.others[o] \o NL
          /\ others' = Append(others, In.others[o]) /\ after' = "other" /\ UNCHANGED opts
Init == \E u \in DOMAIN In.usages : /\ text = In.usages[u].text \o NL /\ opts = <<>> /\ others = SplitAt(In.usages[u].text, NL) /\ after = "other" /\ n = u
Next == Len(opts) + Len(others) < MaxLen /\ (Option \/ Option \/ Option \/ Other) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties: the text determines what is read. *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Single  == \A i, j \in DOMAIN opts : i # j => Range(opts[i].strs) \cap Range(opts[j].strs) = {}
\* nothing is lost: every line of the text is another line or contains an option string or a part of a description
Covered == \A i \in DOMAIN SplitAt(text, NL) : LET l == SplitAt(text, NL)[i] IN
             l = "" \/ l \in Range(others) \/ Pfx(" ", l)
Inv == Single /\ Covered
\* the last line may end without a newline
Emit == Len(opts) + Len(others) < MaxLen \/ Serialize(ToJson([text |-> text, opts |-> opts, others |-> others, usage |-> n]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
