------------------------------ MODULE Lifecycle ------------------------------
(* The program seen from outside: command lines read definitions and write,  *)
(* install or uninstall scripts.  The state is the file system; a command    *)
(* has an exit code and an output.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS EmitFile, MaxLen
\* [defs: sequence of [prog, file: is it a file, bad: which targets reject it ("no" | "all" | "shells" | "notyaml")], usages: how many ways to misuse the command line,
\*  sets: how many settings]
In == JsonDeserialize(IOEnv.CC_LIFE)

Shells  == {"bash", "fish", "zsh"}
Targets == Shells \cup {"yaml", "json"}
Defs    == DOMAIN In.defs
Progs   == { In.defs[d].prog : d \in Defs }

\* Places.  "out" names: a and b are files, c does not exist, sub/d is in a directory that exists, dir is a directory,
\* gone/x is in a directory that does not exist, locked belongs to somebody else, full is a full device, def is the definition itself
Outs   == {"a", "b", "c", "sub/d", "dir", "gone/x", "locked", "full", "def"}
Place(s, p) == "I/" \o s \o "/" \o p
Paths  == { o \in Outs : o \notin {"full", "def"} } \cup { Place(s, p) : s \in Shells, p \in Progs \cup {"neighbour"} }

None == <<"none">>   Old == <<"old">>   Dir == <<"dir">>
Script(t, d, n) == <<"script", t, ToString(d), ToString(n)>>

VARIABLES fs, last, hist
vars == <<fs, last, hist>>

\* Destinations that cannot be written
Writable(p) == p \notin {"dir", "gone/x", "locked", "full"}

\* A command: target, definition, destination ("stdout", "install", "uninstall" or an output), settings, misuse (0: none), include file
\* ("none", "good", "missing")
Rejects(c) == LET b == In.defs[c.d].bad IN b = "all" \/ (b = "notyaml" /\ c.t # "yaml") \/ (b = "shells" /\ c.t \in Shells) \/ (c.i = "missing" /\ c.t \in Shells)
\* what the script is a function of
Of(c) == Script(c.t, c.d, IF c.i = "good" /\ c.t \in Shells THEN c.s + In.sets ELSE c.s)
Dest(c) == CASE c.to \in {"install", "uninstall"} -> Place(c.t, In.defs[c.d].prog) [] OTHER -> c.to
\* what a command does to the file system f: [exit, fs, out]
Run(c, f) ==
  LET same(e) == [exit |-> e, fs |-> f, out |-> None] IN
  IF c.u # 0 THEN same(2)
  ELSE IF Rejects(c) THEN same(1)
  ELSE IF c.to = "stdout" THEN [exit |-> 0, fs |-> f, out |-> Of(c)]
  ELSE IF c.to = "uninstall" THEN IF f[Dest(c)] = None THEN same(1) ELSE [exit |-> 0, fs |-> [f EXCEPT ![Dest(c)] = None], out |-> None]
  ELSE IF ~Writable(c.to) THEN same(1)
  ELSE [exit |-> 0, fs |-> [f EXCEPT ![Dest(c)] = Of(c)], out |-> None]
\* several commands of a batch file: the first failure ends it
RECURSIVE Batch(_, _)
Batch(cs, f) ==
  IF cs = <<>> THEN [exit |-> 0, fs |-> f, outs |-> <<>>]
  ELSE LET r == Run(Head(cs), f) IN
       IF r.exit # 0 THEN [exit |-> r.exit, fs |-> r.fs, outs |-> <<>>]
       ELSE LET q == Batch(Tail(cs), r.fs) IN [exit |-> q.exit, fs |-> q.fs, outs |-> (IF r.out = None THEN <<>> ELSE <<r.out>>) \o q.outs]

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Start(n) == [ p \in Paths |-> CASE p \in {"a", "locked"} -> Old [] p = "b" -> Old [] p = "dir" -> Dir [] p \in {"c", "sub/d", "gone/x"} -> None
                             [] OTHER -> IF p \in { Place(s, "neighbour") : s \in Shells } \/ RandomElement({TRUE, FALSE, FALSE}) THEN Old ELSE None ]
\* definitions that every command accepts are tried more often than the others
SomeDef == LET g == { d \in Defs : In.defs[d].bad = "no" } IN RandomElement({1, 2, 3}) # 1
Command(h) ==
  { c \in { [t |-> t, d |-> d, to |-> to, s |-> s, u |-> u, i |-> i] :
      t \in Pick(Targets), d \in Pick(IF SomeDef THEN { d \in Defs : In.defs[d].bad = "no" } ELSE Defs),
      to \in Pick(Pick({"install", "uninstall"}) \cup Pick({"install", "uninstall"}) \cup Pick(Outs \cup {"stdout"})),
      s \in Pick(1..In.sets), u \in Pick({0} \cup Pick(0..In.usages)), i \in Pick({"none"} \cup Pick({"none", "good", "missing"})) } :
      /\ c.to \in {"install", "uninstall"} => c.t \in Shells
      /\ c.to = "def" => (In.defs[c.d].file /\ (Rejects(c) \/ c.u # 0)) }
Did(cs, r) == /\ fs' = r.fs /\ last' = [exit |-> r.exit, outs |-> r.outs]
              /\ hist' = Append(hist, [cs |-> cs, exit |-> r.exit, outs |-> r.outs, fs |-> { <<p, r.fs[p]>> : p \in { p \in Paths : r.fs[p] # None } }])
One == \E c \in Command(hist) : Did(<<c>>, Batch(<<c>>, fs))
\* what has just been installed goes away again; the last command once more
Undo == /\ hist # <<>>
        /\ LET cs == hist[Len(hist)].cs  c == [cs[Len(cs)] EXCEPT !.to = IF @ = "uninstall" THEN "install" ELSE "uninstall", !.u = 0] IN
           c.t \in Shells /\ Did(<<c>>, Batch(<<c>>, fs))
Again == hist # <<>> /\ LET cs == hist[Len(hist)].cs IN Did(cs, Batch(cs, fs))
Many == \E b \in Command(hist), c \in Command(hist), d \in Command(hist) : \E cs \in Pick({<<b, c>>, <<b, c, d>>}) : Did(cs, Batch(cs, fs))

Init == (\E n \in 1..8 : fs = Start(n)) /\ last = [exit |-> 0, outs |-> <<>>] /\ hist = <<[cs |-> <<>>, exit |-> 0, outs |-> <<>>, fs |-> { <<p, fs[p]>> : p \in { p \in Paths : fs[p] # None } }]>>
Next == Len(hist) <= MaxLen /\ (One \/ One \/ One \/ (Len(hist) > 1 /\ (Undo \/ Again)) \/ Many)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
Codes == last.exit \in {0, 1, 2}
\* directories and what belongs to others stay
Kept  == /\ fs["dir"] = Dir /\ fs["gone/x"] = None /\ fs["locked"] = Old
         /\ \A s \in Shells : fs[Place(s, "neighbour")] = Old
\* where there is a script, it is that of the place's program and shell
Fits  == \A s \in Shells, p \in Progs : fs[Place(s, p)][1] = "script" =>
           fs[Place(s, p)][2] = s /\ \E d \in Defs : ToString(d) = fs[Place(s, p)][3] /\ In.defs[d].prog = p
\* a single command touches at most its destination, and nothing if it fails
OneStep == \A n \in 2..Len(hist) : LET h == hist[n]  b == hist[n - 1].fs IN
  Len(h.cs) = 1 => LET d == { x \in (h.fs \ b) \cup (b \ h.fs) : TRUE } IN
     /\ h.exit # 0 => d = {} /\ h.outs = <<>>
     /\ \A x \in d : x[1] = Dest(h.cs[1])
     /\ (h.exit = 0 /\ h.cs[1].to = "uninstall") => \A x \in h.fs : x[1] # Dest(h.cs[1])
     /\ (h.exit = 0 /\ h.cs[1].to \notin {"uninstall", "stdout"}) => <<Dest(h.cs[1]), Of(h.cs[1])>> \in h.fs
Emit == Len(hist) <= MaxLen \/ Serialize(ToJson(hist) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
