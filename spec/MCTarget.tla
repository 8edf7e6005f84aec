-------------------------------- MODULE MCTarget --------------------------------
(***************************************************************************)
(* Target files on disk (C17, C19, C29): downloads of two targets in two    *)
(* versions, to the place the client chooses or to a file that is named,    *)
(* with every answer; searches for the copy; and files that are changed,    *)
(* removed or replaced by a directory from outside, in any order.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Gen

\* contents 1 and 2 have the same length, 3 does not
SizeOf(id) == IF id \in {1, 2} THEN 5 ELSE 6
G == INSTANCE Target WITH Size <- SizeOf, Digest <- LAMBDA id, alg : ""

VARIABLES files, last, h
vars == <<files, last, h>>
View == files
Targets == {"p", "q"}
Places == Targets \cup {"f", "g"}          \* where p and q go, and two files that can be named
Vers == {1, 2}
Ti(v) == [len |-> SizeOf(v), hs |-> <<[alg |-> "sha256", of |-> v]>>]
Answers == {"1", "2", "3", "http", "err"}
ContentOf(a) == CASE a = "1" -> 1 [] a = "2" -> 2 [] a = "3" -> 3 [] OTHER -> 0
Place(t, f) == IF f = "" THEN t ELSE f
\* a directory is in the way of a download
Dl(t, f, v, a) ==
    LET pl == Place(t, f)
        ok == ContentOf(a) # 0 /\ G!Matches(Ti(v), ContentOf(a)) /\ files[pl] # -1 IN
    [ok |-> ok, files |-> IF ok THEN [files EXCEPT ![pl] = ContentOf(a)] ELSE files]
FoundIn(fs, t, f, v) == LET c == fs[Place(t, f)] IN c >= 1 /\ G!Matches(Ti(v), c)
Found(t, f, v) == FoundIn(files, t, f, v)

Op(o, t, f, v, a) == [o |-> o, t |-> t, f |-> f, v |-> v, a |-> a]
Init == files = [p \in Places |-> 0] /\ last = Op("init", "", "", 0, "") /\ h = <<>>
Step(op, fs) == files' = fs /\ last' = op /\ h' = Append(h, op)
Download == \E t \in Targets, f \in {"", "f", "g"}, v \in Vers, a \in Answers : Step(Op("d", t, f, v, a), Dl(t, f, v, a).files)
Find == \E t \in Targets, f \in {"", "f", "g"}, v \in Vers : Step(Op("s", t, f, v, IF Found(t, f, v) THEN "yes" ELSE "no"), files)
Damage == \E pl \in Places, c \in {-1, 0, 1, 2, 3} :
             files[pl] # 0 /\ files[pl] # c /\ Step(Op("x", "", pl, c, ""), [files EXCEPT ![pl] = c])
Next == Download \/ Find \/ Damage
Spec == Init /\ [][Next]_vars

\* C17, C29: what is downloaded is found as long as nobody touches it, and only for the description it fits
DownFound == [][(last'.o = "d" /\ Dl(last'.t, last'.f, last'.v, last'.a).ok) => FoundIn(files', last'.t, last'.f, last'.v)]_vars
OneVersion == \A t \in Targets, f \in {"", "f", "g"} : ~(Found(t, f, 1) /\ Found(t, f, 2))
\* C19: nothing but the place asked for changes; a failure changes nothing
Framed == [][\A pl \in Places : files'[pl] # files[pl] => (last'.o = "d" /\ pl = Place(last'.t, last'.f)) \/ (last'.o = "x" /\ pl = last'.f)]_vars
\* C17: what a download leaves behind is what the description says
Stored == [][(last'.o = "d" /\ files' # files) => files'[Place(last'.t, last'.f)] = last'.v]_vars
Quiet == [][last'.o = "s" => files' = files]_vars
\* a file from outside can hold anything, but only a good one is found
Good == \A t \in Targets, f \in {"", "f", "g"}, v \in Vers : Found(t, f, v) => files[Place(t, f)] = v

ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> <<>>])
Emit == Gen => PrintT("GEN " \o ToJson(h'))
=============================================================================
