--------------------------------- MODULE Multi ---------------------------------
(***************************************************************************)
(* Several repositories behind a map file (TAP 4): which target information *)
(* a client may use.                                                        *)
(*   maps     the mappings in order: [paths, repos, thr, term]              *)
(*   Answer(n, path)   what repository n says about path: a set that is     *)
(*            empty (it fails, or has no such target) or holds one target   *)
(*            description                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Answer(_, _), Matching(_, _), Same(_, _)
\* Matching(patterns, path), Same(description, description)

RangeM(q) == {q[i] : i \in DOMAIN q}
\* the repositories of mapping m that vouch for what repository n says
Vouching(m, path, n) ==
    {k \in RangeM(m.repos) : \E a \in Answer(k, path), b \in Answer(n, path) : Same(a, b)}
\* the groups of repositories that agree and are enough
Enough(m, path) ==
    {g \in {Vouching(m, path, n) : n \in {n \in RangeM(m.repos) : Answer(n, path) # {}}} : Cardinality(g) >= m.thr}

NoResult(why) == [ok |-> FALSE, group |-> {}, why |-> why]
RECURSIVE Lookup(_, _)
Lookup(maps, path) ==
    IF maps = <<>> THEN NoResult("none")
    ELSE LET m == Head(maps)
             gs == Enough(m, path) IN
         IF ~Matching(m.paths, path) THEN Lookup(Tail(maps), path)
         ELSE IF Cardinality(gs) > 1 THEN NoResult("conflict")
         ELSE IF gs # {} THEN [ok |-> TRUE, group |-> CHOOSE g \in gs : TRUE, why |-> "found"]
         ELSE IF m.term THEN NoResult("terminated")
         ELSE Lookup(Tail(maps), path)
=============================================================================
