-------------------------------- MODULE MCMulti --------------------------------
(***************************************************************************)
(* Several repositories (C21, C22): a client that asks the repositories of  *)
(* one mapping after the other, in any order, and gathers who agrees,       *)
(* against Lookup of Multi.tla and against what TAP 4 promises, for every   *)
(* map of up to MaxMaps mappings over the repositories Repos, and all       *)
(* answers.  Answers: none (no such target), A, AA (the same target with    *)
(* one more digest), B (another one).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Repos, MaxMaps, Thrs, Kinds, Gen

VARIABLES maps, ans, pc, i, todo, groups, res
vars == <<maps, ans, pc, i, todo, groups, res>>

Info(k) == CASE k = "A" -> [len |-> 1, hs |-> <<[alg |-> "sha256", of |-> 1]>>]
             [] k = "AA" -> [len |-> 1, hs |-> <<[alg |-> "sha256", of |-> 1], [alg |-> "sha512", of |-> 1]>>]
             [] k = "B" -> [len |-> 1, hs |-> <<[alg |-> "sha256", of |-> 2]>>]
G == INSTANCE Target WITH Size <- LAMBDA id : 1, Digest <- LAMBDA id, alg : ""
AnswerNow(n, path) == IF ans[n] = "none" THEN {} ELSE {Info(ans[n])}
M == INSTANCE Multi WITH Answer <- AnswerNow, Matching <- LAMBDA pats, path : pats = path, Same <- LAMBDA a, b : G!SameTarget(a, b)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Mappings == {[paths |-> "t", repos |-> SeqOf(R), thr |-> t, term |-> x] : R \in SUBSET Repos \ {{}}, t \in Thrs, x \in BOOLEAN}
            \cup {[paths |-> "u", repos |-> SeqOf(Repos), thr |-> 1, term |-> TRUE]}
NoRes == [ok |-> FALSE, group |-> {}, why |-> "", map |-> 0, ti |-> {}]

Init == maps = <<>> /\ ans = [n \in Repos |-> "none"] /\ pc = "maps" /\ i = 0 /\ todo = {} /\ groups = {} /\ res = NoRes
AddMap == /\ pc = "maps" /\ Len(maps) < MaxMaps /\ \E m \in Mappings : maps' = Append(maps, m)
          /\ UNCHANGED <<ans, pc, i, todo, groups, res>>
Start == /\ pc = "maps" /\ maps # <<>> /\ ans' \in [Repos -> Kinds] /\ pc' = "next" /\ i' = 0
         /\ UNCHANGED <<maps, todo, groups, res>>
Finish(r) == pc' = "done" /\ res' = r /\ UNCHANGED <<maps, ans, i, todo, groups>>
\* the next mapping
NextMap ==
    /\ pc = "next"
    /\ IF i = Len(maps) THEN Finish([NoRes EXCEPT !.why = "none"])
       ELSE /\ i' = i + 1 /\ groups' = {}
            /\ IF maps[i + 1].paths = "t" THEN pc' = "ask" /\ todo' = M!RangeM(maps[i + 1].repos) ELSE pc' = "next" /\ todo' = {}
            /\ UNCHANGED <<maps, ans, res>>
\* ask one of its repositories
Ask ==
    /\ pc = "ask" /\ todo # {}
    /\ \E n \in todo :
          /\ todo' = todo \ {n}
          /\ groups' = LET a == AnswerNow(n, "t")
                           agree == {g \in groups : \E x \in a : G!SameTarget(g.ti, x)} IN
                       IF a = {} THEN groups
                       ELSE IF agree = {} THEN groups \cup {[ti |-> CHOOSE x \in a : TRUE, by |-> {n}]}
                       ELSE (groups \ agree) \cup {[g EXCEPT !.by = @ \cup {n}] : g \in agree}
    /\ UNCHANGED <<maps, ans, pc, i, res>>
Decide ==
    /\ pc = "ask" /\ todo = {}
    /\ LET win == {g \in groups : Cardinality(g.by) >= maps[i].thr}
           w == CHOOSE g \in win : TRUE IN
       IF Cardinality(win) > 1 THEN Finish([NoRes EXCEPT !.why = "conflict"])
       ELSE IF win # {} THEN Finish([ok |-> TRUE, group |-> w.by, why |-> "found", map |-> i, ti |-> {w.ti}])
       ELSE IF maps[i].term THEN Finish([NoRes EXCEPT !.why = "terminated"])
       ELSE pc' = "next" /\ UNCHANGED <<maps, ans, i, todo, groups, res>>
Next == AddMap \/ Start \/ NextMap \/ Ask \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(NextMap \/ Ask \/ Decide)

Done == pc = "done"
\* the order of asking makes no difference, and it is what Multi.tla says
Same == Done => LET w == M!Lookup(maps, "t") IN w.ok = res.ok /\ w.group = res.group /\ w.why = res.why
\* C21: enough repositories of one mapping for this target say the same
Agreement == (Done /\ res.ok) =>
    LET m == maps[res.map] IN
    /\ m.paths = "t" /\ res.group \subseteq M!RangeM(m.repos) /\ Cardinality(res.group) >= m.thr
    /\ \A n \in res.group, t \in res.ti : \E a \in AnswerNow(n, "t") : G!SameTarget(a, t)
\* C21: what fewer repositories say than any mapping asks for is never believed
Tolerant == (Done /\ res.ok) => \E m \in M!RangeM(maps) : \E t \in res.ti :
    Cardinality({n \in Repos : \E a \in AnswerNow(n, "t") : G!SameTarget(a, t)}) >= m.thr
\* C22: no mapping before it decides, and none after a terminating one does
Enough(m) == {n \in M!RangeM(m.repos) : ans[n] # "none" /\ Cardinality({k \in M!RangeM(m.repos) : ans[k] # "none" /\ G!SameTarget(Info(ans[n]), Info(ans[k]))}) >= m.thr} # {}
First == (Done /\ res.ok) => \A j \in 1..(res.map - 1) : maps[j].paths # "t" \/ (~maps[j].term /\ ~Enough(maps[j]))
\* C22: what is given up is given up for a reason
Reason == (Done /\ ~res.ok) =>
    CASE res.why = "none" -> \A j \in DOMAIN maps : maps[j].paths = "t" => ~Enough(maps[j]) /\ ~maps[j].term
      [] res.why = "terminated" -> \E j \in DOMAIN maps : maps[j].paths = "t" /\ maps[j].term /\ ~Enough(maps[j])
      [] res.why = "conflict" -> \E j \in DOMAIN maps : maps[j].paths = "t" /\ \E n, k \in Repos : ans[n] # "none" /\ ans[k] # "none" /\ ~G!SameTarget(Info(ans[n]), Info(ans[k]))
      [] OTHER -> FALSE
Ends == <>(pc = "done" \/ pc = "maps")

ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> <<>>])
\* for the driver
Brief(m) == [p |-> m.paths = "t", r |-> m.repos, t |-> m.thr, x |-> m.term]
Emit == (Gen /\ pc = "maps" /\ pc' = "next") => PrintT("GEN " \o ToJson([m |-> [k \in DOMAIN maps |-> Brief(maps[k])], a |-> ans', w |-> M!Lookup(maps, "t")'.why]))
=============================================================================
