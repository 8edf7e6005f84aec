--------------------------------- MODULE MCWalk ---------------------------------
(***************************************************************************)
(* The search for a target (C12, C13, C14): the machine with its explicit   *)
(* stack in Client.tla against what pre-order search with terminating       *)
(* delegations means, for every delegation graph of a few roles              *)
(* with lists of up to MaxList delegations, every choice of the roles that  *)
(* list the target, and every limit.  Sample: so many of the graphs, 0: all *)
(* of them.  No list names a role twice: what that would mean is not said   *)
(* anywhere.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization
CONSTANTS MaxList, Limits, Names, Gen, Sample     \* Names: roles that can be delegated to

VARIABLES g, has, lim                \* the graph, the roles that list the target, the limit
vars == <<g, has, lim>>

Roles == {"targets"} \cup Names
IdOf(r) == CASE r = "targets" -> 1 [] r = "a" -> 2 [] r = "b" -> 3 [] r = "c" -> 4
Ti == [len |-> 1, hs |-> <<>>]
Entry(e) == [name |-> e.to, kids |-> <<>>, thr |-> 1, term |-> e.term, paths |-> <<<<<<IF e.cov THEN 42 ELSE 121>>>>>>, prefixes |-> <<>>]
DocIn(id) ==
    LET r == CHOOSE r \in Roles : IdOf(r) = id IN
    [json |-> TRUE, typ |-> "targets", ver |-> 1, exp |-> 1, sigs |-> <<>>, dk |-> "roles", droles |-> [i \in DOMAIN g[r] |-> Entry(g[r][i])],
     tgts |-> IF r \in has THEN ("x" :> Ti) ELSE [p \in {} |-> Ti]]
INSTANCE Client WITH Doc <- DocIn, PathInfo <- LAMBDA p : [segs |-> <<<<120>>>>, hash |-> <<>>, b64 |-> <<>>, h4 |-> <<0, 0, 0, 0>>]

Edge == [to : Names, term : BOOLEAN, cov : {TRUE}]
Distinct(q) == \A i, j \in DOMAIN q : q[i].to = q[j].to => i = j
Lists == {q \in UNION {[1..n -> Edge] : n \in 0..MaxList} : Distinct(q)}
Graphs == IF Sample = 0 THEN [Roles -> Lists] ELSE RandomSubset(Sample, [Roles -> Lists])
Init == g \in Graphs /\ has = {} /\ lim = -1
Next == lim = -1 /\ has' \in SUBSET Roles /\ lim' \in Limits /\ UNCHANGED g
Ready == lim >= 0
Spec == Init /\ [][Next]_vars

\* --- what the search means: [found, seen (in order), stop]
RECURSIVE Search(_, _), SearchAll(_, _)
Search(role, s) ==
    IF s.stop THEN s
    ELSE IF Cardinality(Range(s.seen)) > lim THEN [s EXCEPT !.stop = TRUE]
    ELSE IF role \in Range(s.seen) THEN s
    ELSE LET s1 == [s EXCEPT !.seen = Append(@, role)] IN
         IF role \in has THEN [s1 EXCEPT !.found = role, !.stop = TRUE]
         ELSE SearchAll(g[role], s1)
SearchAll(es, s) ==
    IF es = <<>> \/ s.stop THEN s
    ELSE LET s1 == Search(Head(es).to, s) IN
         IF Head(es).term THEN [s1 EXCEPT !.stop = TRUE] ELSE SearchAll(Tail(es), s1)
Meaning == Search("targets", [found |-> "", seen |-> <<>>, stop |-> FALSE])

\* --- what the machine does; seen: the order in which it visits
Client0 == [NewClient(1, EmptyFn, [cache |-> FALSE, maxDel |-> lim, now |-> 0, offline |-> FALSE, maxRot |-> 0])
            EXCEPT !.tm = [root |-> 1, ts |-> 1, sn |-> 1, tg |-> [r \in Roles |-> IdOf(r)]]]
RECURSIVE Trail(_, _)
Trail(c, seen) ==
    IF c.pc # "run" THEN [c |-> c, seen |-> seen]
    ELSE Trail(Step(c), IF c.at = "visit" THEN Append(seen, c.role) ELSE seen)
Machine == Trail(CallInfo(Client0, "x"), <<>>)

Same == Ready => LET m == Machine
            w == Meaning IN
        /\ m.seen = w.seen
        /\ m.c.pc = "done"
        /\ (w.found # "") = (m.c.err = {})
        /\ w.found # "" => m.c.res.role = w.found
\* C12: each role once; C14: no more than the limit and one
Once == Ready => LET s == Machine.seen IN \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Limited == Ready => Len(Machine.seen) <= lim + 1
\* C12: a visited role (but the first) was delegated to by one visited before
Delegated == Ready => LET s == Machine.seen IN
             \A i \in DOMAIN s : i = 1 \/ \E j \in 1..(i - 1) : \E k \in DOMAIN g[s[j]] : g[s[j]][k].to = s[i]

\* for the driver: every graph, place of the target and limit
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> <<>>])
Brief(r) == [i \in DOMAIN g[r] |-> <<g[r][i].to, g[r][i].term>>]
Emit == Gen => PrintT("GEN " \o ToJson([g |-> [r \in Roles |-> Brief(r)], h |-> has', l |-> lim']))
=============================================================================
