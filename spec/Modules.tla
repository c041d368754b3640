------------------------------ MODULE Modules -------------------------------
(***************************************************************************)
(* Where generated code goes (C16).  The generator reads schema files in   *)
(* whatever order the file system delivers them; each makes a package and  *)
(* its declarations known.  Every declaration gets a file of its own, in   *)
(* the directory of its package, named by rules on the characters of its   *)
(* name; every package gets a module file that lists its declarations and  *)
(* the modules below it.  The outcome is the same for every order.         *)
(* Names are sequences of character codes.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions, Json, IOUtils, CSV, TLC

Job == JsonDeserialize(IOEnv.ZS_JOB)
\* [out, all : BOOLEAN, reserved : << <<codes, codes>> >>, keywords : <<codes>>,
\*  groups : << [name, files : << [pkg : <<codes>>, decls : <<codes>>] >>] >>]

Groups == Job.groups

VARIABLES g, todo, tree          \* group; files not read yet; set of generated files (paths of codes)
vars == <<g, todo, tree>>

Upper(c) == c >= 65 /\ c <= 90
Lower(c) == c >= 97 /\ c <= 122
Digit(c) == c >= 48 /\ c <= 57
ToLower(c) == IF Upper(c) THEN c + 32 ELSE c
US == 95                          \* underscore

\* snake case: words are separated by underscores; a word starts at an upper case
\* letter that does not follow one, at the last of several upper case letters when a lower
\* case letter follows, at a digit that does not follow a digit, and after digits and underscores
StartsWord(n, i) ==
    LET c == n[i]
        p == n[i - 1]
    IN \/ Upper(c) /\ ~Upper(p)
       \/ Upper(c) /\ Upper(p) /\ i < Len(n) /\ Lower(n[i + 1])
       \/ Digit(c) /\ ~Digit(p)
       \/ Lower(c) /\ (Digit(p) \/ p = US)
Snake(n) ==
    FlattenSeq([i \in 1..Len(n) |->
        IF n[i] = US THEN <<>>
        ELSE IF i > 1 /\ (\E j \in 1..(i - 1) : n[j] # US) /\ StartsWord(n, i) THEN <<US, ToLower(n[i])>>
        ELSE <<ToLower(n[i])>>])
Lowered(n) == [i \in 1..Len(n) |-> ToLower(n[i])]
Replaced(n) == LET hits == SelectSeq(Job.reserved, LAMBDA x : x[1] = Lowered(n)) IN IF hits = <<>> THEN n ELSE hits[1][2]
IsKeyword(n) == \E k \in 1..Len(Job.keywords) : Job.keywords[k] = n
ModuleName(n) == LET s == Snake(Replaced(n)) IN IF IsKeyword(s) THEN <<122, US>> \o s ELSE s

MOD == <<109, 111, 100>>          \* "mod"
Dir(f) == [i \in 1..Len(f.pkg) |-> ModuleName(f.pkg[i])]
FilesOf(f) == {Append(Dir(f), MOD)} \cup {Append(Dir(f), ModuleName(f.decls[i])) : i \in 1..Len(f.decls)}
Fs == Groups[g].files

Init == /\ g \in 1..Len(Groups)
        /\ todo = 1..Len(Groups[g].files)
        /\ tree = {<<MOD>>}
Smallest(S) == CHOOSE m \in S : \A y \in S : m <= y
\* small schemas: every order; others: one
Next1 == IF Len(Fs) <= 5 THEN todo ELSE {Smallest(todo)}
ReadFile == /\ todo # {}
            /\ \E f \in Next1 : /\ tree' = tree \cup FilesOf(Fs[f])
                                  /\ todo' = todo \ {f}
            /\ UNCHANGED g
Emit == /\ todo = {} /\ todo' = {0} /\ UNCHANGED <<g, tree>>
        /\ CSVWrite("%1$s", <<ToJson([i |-> g, files |-> SetToSeq(tree)])>>, Job.out \o Groups[g].name)
Next == (todo # {0} /\ ReadFile) \/ Emit
Spec == Init /\ [][Next]_vars

Total == {<<MOD>>} \cup UNION {FilesOf(Fs[f]) : f \in 1..Len(Fs)}
\* whatever the order, the same files
OrderFree == todo \in {{}, {0}} => tree = Total
\* no declaration overwrites another one, no file is a directory too
Declared == UNION {{<<f, i>> : i \in 1..Len(Fs[f].decls)} : f \in 1..Len(Fs)}
PathOf(d) == Append(Dir(Fs[d[1]]), ModuleName(Fs[d[1]].decls[d[2]]))
OneEach == todo = {} => /\ \A d, e \in Declared : d # e => PathOf(d) # PathOf(e)
                        /\ \A d \in Declared : \A f \in 1..Len(Fs) : PathOf(d) # Dir(Fs[f])
                        /\ \A d \in Declared : PathOf(d)[Len(PathOf(d))] # MOD
=============================================================================
