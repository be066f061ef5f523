------------------------------- MODULE Purity -------------------------------
(* Histories of a process that generates scripts: what a generation returns  *)
(* is a function of the definition and the settings alone, and the loaded    *)
(* definitions never change.                                                 *)
(*                                                                           *)
(* `How` names the state a careless generator could depend on: the seed of   *)
(* the process, what has been generated before, objects shared between       *)
(* generations.  The specified result does not mention any of it.            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

CONSTANTS EmitFile, MaxLen, NDefs, NPy, NSets
\* definitions 1..NDefs are YAML or JSON, the following NPy are Python programs
Files   == 1..NDefs + NPy
Targets == {"bash", "fish", "zsh", "yaml", "json"}
Seeds   == {"0", "1", "4711", "random"}

VARIABLES mode,     \* "batch": every command loads its file anew; "api": objects are kept and shared
          seed, hist,
          objs      \* definitions loaded as objects (api), with the version they are in
vars == <<mode, seed, hist, objs>>

Result(f, t, s) == <<"script", f, t, s>>      \* neither hist nor seed nor mode

Init == mode \in {"batch", "api"} /\ seed \in Seeds /\ hist = <<>> /\ objs = << >>
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Did(op) == hist' = Append(hist, op) /\ UNCHANGED <<mode, seed>>

Run == /\ mode = "batch"
       /\ \E f \in Pick(Files), t \in Pick(Targets), s \in Pick(1..NSets) : Did([op |-> "run", f |-> f, t |-> t, s |-> s])
       /\ UNCHANGED objs
\* the same file through a path spelled differently, or a file that fails, in between
Load == /\ mode = "api"
        /\ \E f \in Pick(1..NDefs) : /\ objs' = Append(objs, [f |-> f, version |-> 0])
                                     /\ Did([op |-> "load", f |-> f, t |-> "", s |-> 0])
Gen == /\ mode = "api" /\ objs # <<>>
       /\ \E o \in Pick(DOMAIN objs), t \in Pick(Targets), s \in Pick(1..NSets) : Did([op |-> "gen", f |-> o, t |-> t, s |-> s])
       /\ UNCHANGED objs
\* the last generation once more
Again == /\ hist # <<>> /\ hist[Len(hist)].op \in {"gen", "run"}
         /\ Did(hist[Len(hist)]) /\ UNCHANGED objs

Next == Len(hist) < MaxLen /\ (Run \/ Load \/ Gen \/ Gen \/ Again)
Spec == Init /\ [][Next]_vars

FileOf(op) == IF op.op = "run" THEN op.f ELSE IF op.op = "load" THEN op.f ELSE objs[op.f].f
Results == [ i \in DOMAIN hist |-> IF hist[i].op = "load" THEN <<"none", FileOf(hist[i]), "", 0>> ELSE Result(FileOf(hist[i]), hist[i].t, hist[i].s) ]
\* equal requests, equal results; and no generation changes an object
Pure == \A i, j \in DOMAIN hist : (hist[i].op # "load" /\ hist[j].op # "load" /\ FileOf(hist[i]) = FileOf(hist[j]) /\ hist[i].t = hist[j].t /\ hist[i].s = hist[j].s)
          => Results[i] = Results[j]
Unchanged == \A o \in DOMAIN objs : objs[o].version = 0
Emit == Len(hist) < MaxLen \/ Serialize(ToJson([ mode |-> mode, seed |-> seed, h |-> hist, r |-> Results ]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
