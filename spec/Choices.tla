------------------------------ MODULE Choices ------------------------------
(* A `choices` completer: a sequence of words made of arbitrary characters,  *)
(* and a user who types one of them, in one of the shell's quoting styles.   *)
EXTENDS Str, Json, IOUtils

CONSTANTS EmitFile, MaxLen
\* [atoms: the pieces words are made of, texts: pieces of descriptions, plain: how many of the atoms are plain]
In == JsonDeserialize(IOEnv.CC_CHOICES)

Forms  == {"--opt w", "--opt=w", "-o w", "-ow", "pos"}
Styles == {"bare", "single", "double"}

\* def: [items, descs, nosort, dict, long]; form, style, typed: the word being typed; hist: what has been typed and what was offered
VARIABLES def, form, style, typed, hist
vars == <<def, form, style, typed, hist>>

Offered(d, t) == Filter(d.items, LAMBDA w : Pfx(t, w))

-----------------------------------------------------------------------------
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
\* equal neighbourhoods: words that share a beginning
RECURSIVE Word(_, _)
Word(n, h) == IF n = 0 THEN "" ELSE In.atoms[RandomElement(DOMAIN In.atoms)] \o Word(n - 1, h)
RECURSIVE Text(_, _)
Text(n, h) == IF n = 0 THEN "" ELSE In.texts[RandomElement(DOMAIN In.texts)] \o Text(n - 1, h)
Word1(h) == Word(RandomElement({1, 1, 2, 2, 3, 4}), h)
\* n words; some continue another one
RECURSIVE Words(_, _)
Words(n, acc) ==
  IF n = 0 THEN acc
  ELSE LET w == IF acc # <<>> /\ RandomElement({1, 2, 3}) = 1 THEN acc[RandomElement(DOMAIN acc)] \o Word1(acc)
                ELSE IF acc # <<>> /\ RandomElement({1, 2, 3, 4}) = 1 THEN Upto(acc[1], 1) \o Word1(acc) ELSE Word1(acc) IN
       Words(n - 1, Append(acc, w))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Uniq(Filter(Tail(s), LAMBDA w : w # Head(s)))
\* as a positional, a word that begins with a dash is an option
Fits(f, w) == w # "" /\ (f = "pos" => At(w, 1) # "-")

Choose ==
  /\ hist = <<>>
  /\ \E f \in Pick(Forms), st \in Pick({"bare", "bare"} \cup Pick(Styles)), n \in Pick({1, 2, 3, 4, 6, 9}), k \in Pick(BOOLEAN), dict \in Pick(BOOLEAN), long \in Pick(BOOLEAN) :
     \E ws \in {Uniq(Words(n, hist))} :
     \E its \in {Filter(ws, LAMBDA w : Fits(f, w))} :
       /\ form' = f /\ style' = st /\ typed' = ""
       /\ def' = [items |-> IF its = <<>> THEN <<"word">> ELSE its, nosort |-> k, dict |-> dict, long |-> long,
                  descs |-> [ i \in 1..(IF its = <<>> THEN 1 ELSE Len(its)) |-> IF dict /\ RandomElement({1, 2, 3}) # 1 THEN Text(RandomElement({1, 2, 3}), hist) ELSE "" ]]
  /\ hist' = <<[typed |-> "", offered |-> def'.items]>>
Note == hist' = Append(hist, [typed |-> typed', offered |-> Offered(def, typed')])
Type == \E w \in Pick(Range(Offered(def, typed)) \ {typed}), n \in Pick({1, 1, 2, 5}) :
          typed' = Upto(w, Len(typed) + n) /\ Note
Wrong == \E a \in Pick(Range(In.atoms)) : typed' = typed \o a /\ Fits(form, typed') /\ Note
Erase == typed # "" /\ \E n \in Pick(0..(Len(typed) - 1)) : typed' = Upto(typed, n) /\ Note
Next == \/ Choose
        \/ /\ hist # <<>> /\ Len(hist) <= MaxLen /\ (Type \/ Type \/ Type \/ Wrong \/ Erase)
           /\ UNCHANGED <<def, form, style>>
Init == def = [items |-> <<>>] /\ form = "pos" /\ style = "bare" /\ typed = "" /\ hist = <<>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
\* exactly the listed words that begin with what has been typed
Literal  == \A h \in Range(hist) : Range(h.offered) = { w \in Range(def.items) : Pfx(h.typed, w) }
\* the order is the definition's
Ordered  == \A h \in Range(hist) : \A i, j \in DOMAIN h.offered : i < j =>
              (CHOOSE a \in DOMAIN def.items : def.items[a] = h.offered[i]) < (CHOOSE b \in DOMAIN def.items : def.items[b] = h.offered[j])
\* typing on never adds a word, a word typed in full stays offered
Narrows  == \A i, j \in DOMAIN hist : Pfx(hist[i].typed, hist[j].typed) => Range(hist[j].offered) \subseteq Range(hist[i].offered)
Reaches  == \A h \in Range(hist) : h.typed \in Range(def.items) => h.typed \in Range(h.offered)
Emit == Len(hist) <= MaxLen \/ Serialize(ToJson([def |-> def, form |-> form, style |-> style, hist |-> hist]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
