-------------------------------- MODULE Releases --------------------------------
(***************************************************************************)
(* A repository that does everything right, with two releases made of the   *)
(* documents of Pool.tla, and its clients.                                  *)
(***************************************************************************)
EXTENDS Pool
INSTANCE Client WITH Doc <- PoolDoc, PathInfo <- PoolPath

\* what is published: role and version asked for -> answer
Published(r) ==
    IF r = 1 THEN [root |-> {"R1"}, timestamp |-> {"T1"}, snapshot |-> {"S1"}, targets |-> {"G1"}, a |-> {"A1"}]
    ELSE [root |-> {"R1", "R2", "R3"}, timestamp |-> {"T2n"}, snapshot |-> {"S1", "S2"}, targets |-> {"G1", "G2"}, a |-> {"A1"}, b |-> {"B1"}]
Newest(S) == CHOOSE x \in S : \A y \in S : PoolDoc(Id(y)).ver <= PoolDoc(Id(x)).ver
Honest(r, req) ==
    LET p == Published(r)
        S == IF Has(p, req.role) THEN p[req.role] ELSE {}
        is == IF req.ver = NoVer THEN S ELSE {x \in S : PoolDoc(Id(x)).ver = req.ver} IN
    IF is = {} THEN [k |-> "http", id |-> 404] ELSE [k |-> "doc", id |-> Id(Newest(is))]

Cfg == [maxRot |-> 3, maxDel |-> 5, rootMax |-> 512000, tsMax |-> 16384, snMax |-> 2000000, tgMax |-> 5000000,
        cache |-> TRUE, offline |-> FALSE, now |-> 0, blocked |-> <<>>, fsize |-> 0, nodir |-> FALSE]
Off(disk) == [pc |-> "off", disk |-> disk]
Call(cl, p) == IF p = "" THEN CallRefresh(cl) ELSE CallInfo(cl, p)
\* a call without interruption
RECURSIVE Complete(_, _)
Complete(cl, r) == CASE cl.pc = "run" -> Complete(Step(cl), r) [] cl.pc = "req" -> Complete(Answer(cl, Honest(r, cl.req)), r) [] OTHER -> cl
\* the same call with an empty cache
Fresh(r, op) == Complete(Call(NewClient(Id("R1"), EmptyFn, Cfg), op.path), r)
FreshTable == [r \in {1, 2} |-> [p \in {"", "x", "y"} |-> Fresh(r, [path |-> p])]]
=============================================================================
