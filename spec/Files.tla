------------------------------- MODULE Files -------------------------------
(* A directory tree, a `file` or `directory` completer with its filters, and *)
(* a user who types a path.                                                  *)
EXTENDS Str, Json, IOUtils

CONSTANTS EmitFile, MaxLen
\* [stems, sufs: pieces of file names, toks: tokens of a glob, exts: extensions]
In == JsonDeserialize(IOEnv.CC_FILES)

\* every directory of the tree, by the path that leads to it; "" is the directory the shell is in
Dirs == {"", "sub/", "sub/deep/", "base/", "base/in/", "b c/", "b c/in/", "sub.c/"}
Parent(d) == IF d \in {"sub/deep/"} THEN "sub/" ELSE IF d = "base/in/" THEN "base/" ELSE IF d = "b c/in/" THEN "b c/" ELSE ""
DirName(d) == CASE d \in {"base/in/", "b c/in/"} -> "in" [] d = "sub/deep/" -> "deep" [] OTHER -> Upto(d, Len(d) - 1)

\* files: a set of [p, n] (the directory's path, the name); opt: the completer; form; at, typed: the path typed; hist
VARIABLES files, opt, form, typed, hist
vars == <<files, opt, form, typed, hist>>

-----------------------------------------------------------------------------
(* Filters *)
Lower(c) == IF c \in DOMAIN In.lower THEN In.lower[c] ELSE c
\* t without regard to case from the i-th character of s on
SameAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : Lower(At(s, i + j - 1)) = Lower(At(t, j))
HasExt(n, e, fuzzy) == \E i \in 1..Len(n) : At(n, i) = "." /\ SameAt(n, i + 1, e) /\ (fuzzy \/ i + Len(e) = Len(n))
\* a glob is a sequence of tokens
RECURSIVE Glob(_, _)
Glob(g, s) ==
  IF g = <<>> THEN s = ""
  ELSE LET t == Head(g) IN
    CASE t.k = "lit"  -> Pfx(t.s, s) /\ Glob(Tail(g), From(s, Len(t.s) + 1))
      [] t.k = "star" -> \E i \in 0..Len(s) : Glob(Tail(g), From(s, i + 1))
      [] t.k = "any"  -> s # "" /\ Glob(Tail(g), From(s, 2))
      [] t.k = "set"  -> s # "" /\ (t.neg = ~ (\E c \in Range(t.cs) : c = At(s, 1))) /\ Glob(Tail(g), From(s, 2))
      [] t.k = "alt"  -> \E a \in Range(t.cs) : Pfx(a, s) /\ Glob(Tail(g), From(s, Len(a) + 1))
Ignored(o, n) == \E g \in Range(o.ignore) : Glob(g, n)
Wanted(o, n) == /\ o.kind = "file"
                /\ (o.exts # <<>> => \E e \in Range(o.exts) : HasExt(n, e, o.fuzzy))
                /\ ~ Ignored(o, n)
\* what is offered for the typed path: [path, dir, soft]; soft: a directory's name that an ignored glob matches
SlashAt(t) == LET S == { i \in 1..Len(t) : At(t, i) = "/" } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* whether a path is a directory of the tree
Shown(n, start) == Pfx(start, n) /\ (At(n, 1) = "." => start # "")
Offered(o, fs, t) ==
  LET k == SlashAt(t) dir == Upto(t, k) start == From(t, k + 1) full == o.dir \o dir IN
  IF full \notin Dirs THEN {}
  ELSE { [path |-> dir \o DirName(d), dir |-> TRUE, soft |-> Ignored(o, DirName(d))] : d \in { d \in Dirs : d # "" /\ Parent(d) = full /\ Shown(DirName(d), start) } }
  \cup { [path |-> dir \o f.n, dir |-> FALSE, soft |-> FALSE] : f \in { f \in fs : f.p = full /\ Shown(f.n, start) /\ Wanted(o, f.n) } }

-----------------------------------------------------------------------------
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Of(s, h) == s[RandomElement(DOMAIN s)]
Name(h) == Of(In.stems, h) \o (IF RandomElement({1, 2, 3, 4, 5}) = 1 THEN Of(In.stems, h) ELSE "") \o Of(In.sufs, h) \o (IF RandomElement({1, 2, 3, 4, 5, 6}) = 1 THEN Of(In.sufs, h) ELSE "")
RECURSIVE RandGlob(_, _)
RandGlob(n, h) == IF n = 0 THEN <<>> ELSE <<Of(In.toks, h)>> \o RandGlob(n - 1, h)
\* a glob made of the beginning or the end of a name and a star
NameGlob(f, h) == IF RandomElement(BOOLEAN) THEN <<[k |-> "star", s |-> "", r |-> "*", neg |-> FALSE, cs |-> <<>>]>> \o <<Of(In.toks, h)>> ELSE RandGlob(2, h)
Choose ==
  /\ hist = <<>>
  /\ \E k \in Pick({"file", "file", "file", "directory"}), fm \in Pick({"--opt p", "--opt=p", "-op", "pos"}), dr \in Pick({"", "base/", "b c/"}), ab \in Pick(BOOLEAN),
        ne \in Pick({0, 0, 1, 1, 2, 3}), ng \in Pick({0, 0, 1, 2}), fz \in Pick({TRUE, FALSE, FALSE}), nf \in Pick({3, 8, 20, 40}) :
       /\ files' = { [p |-> RandomElement(IF i % 2 = 0 THEN {dr} ELSE Dirs), n |-> Name(i)] : i \in 1..nf }
       /\ opt' = [kind |-> k, dir |-> IF RandomElement({1, 2}) = 1 THEN dr ELSE "", abs |-> ab,
                  exts |-> IF k = "file" THEN [ i \in 1..ne |-> Of(In.exts, i) ] ELSE <<>>,
                  fuzzy |-> fz /\ k = "file",
                  ignore |-> IF k = "file" THEN [ i \in 1..ng |-> IF RandomElement(BOOLEAN) THEN NameGlob(1, i) ELSE RandGlob(RandomElement(1..3), i) ] ELSE <<>>]
       /\ form' = fm /\ typed' = ""
  /\ hist' = <<[typed |-> "", offered |-> Offered(opt', files', "")]>>
Note == hist' = Append(hist, [typed |-> typed', offered |-> Offered(opt, files, typed')])
\* on into a directory that is offered, or on with a name
Enter == \E e \in Pick({ e \in Offered(opt, files, typed) : e.dir }) : typed' = e.path \o "/" /\ Note
Type  == \E e \in Pick({ e \in Offered(opt, files, typed) : e.path # typed }), n \in Pick({1, 2, 3, 5}) : typed' = Upto(e.path, Len(typed) + n) /\ Note
Dot   == (typed = "" \/ At(typed, Len(typed)) = "/") /\ typed' = typed \o "." /\ Note
Erase == typed # "" /\ \E n \in Pick(0..(Len(typed) - 1)) : typed' = Upto(typed, n) /\ Note
Wrong == typed' = typed \o "zzz" /\ Note
Next == \/ Choose
        \/ /\ hist # <<>> /\ Len(hist) <= MaxLen /\ (Enter \/ Enter \/ Type \/ Type \/ Dot \/ Erase \/ Wrong)
           /\ UNCHANGED <<files, opt, form>>
Init == files = {} /\ opt = [kind |-> ""] /\ form = "pos" /\ typed = "" /\ hist = <<>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
\* only what has been typed so far, and only one level deep
Beneath == \A h \in Range(hist) : \A e \in h.offered : Pfx(h.typed, e.path) /\ SlashAt(e.path) = SlashAt(h.typed)
\* nothing of what is offered is unwanted, and every directory can be entered whatever the filter
Filtered == \A h \in Range(hist) : \A e \in h.offered : e.dir \/ Wanted(opt, From(e.path, SlashAt(e.path) + 1))
OnlyDirs == opt.kind = "directory" => \A h \in Range(hist) : \A e \in h.offered : e.dir
\* each file that the filter wants is reached by typing its path
Reached  == hist # <<>> => \A f \in files : Pfx(opt.dir, f.p) /\ Wanted(opt, f.n) =>
              \E e \in Offered(opt, files, From(f.p, Len(opt.dir) + 1) \o Upto(f.n, 1)) : e.path = From(f.p, Len(opt.dir) + 1) \o f.n
\* extensions do not depend on case; a fuzzy extension only adds
CaseFree == hist # <<>> => \A f \in files, e \in Range(opt.exts) : HasExt(f.n, e, FALSE) => HasExt(f.n, e, TRUE)
Emit == Len(hist) <= MaxLen \/ Serialize(ToJson([files |-> files, opt |-> opt, form |-> form, hist |-> hist]) \o "\n", EmitFile,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
