------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The updater as a state machine, one step per critical section of the     *)
(* code: load one local file, issue one request, process one response,      *)
(* persist one file, visit one delegated role, return from one call.        *)
(*                                                                          *)
(* The state of a client is one record c (so that the trace specification   *)
(* can carry it next to the recorded execution):                            *)
(*   pc     where it is; "idle" between calls, "req" while it waits for     *)
(*          the answer to c.req, "done" when a call is about to return      *)
(*   tm     the trusted metadata set                                        *)
(*   disk   cached file (by role name) -> content id; absent: not readable  *)
(*   cfg    configuration                                                   *)
(*   req    the request it waits for                                        *)
(*   at     the internal step to take next                                  *)
(*   op     the call being executed                                         *)
(*   walking, stack, visited, role, parent   the delegation walk            *)
(*   nxt, hi    the root versions still to ask for                          *)
(*   res, err   the result of the call: reasons of the failure, {} if none  *)
(*   why    the reasons of the last document refused (for reports)          *)
(***************************************************************************)
EXTENDS TufRules

NoReq == [role |-> "", ver |-> -1, max |-> 0]
NoVer == -1          \* request without a version in the file name

\* the file of the role cannot be written: something is in its way, there is no
\* room for it, or its directory has disappeared
CannotStore(cfg, role, id) ==
    \/ role \in Range(cfg.blocked)
    \/ cfg.fsize > 0 /\ Doc(id).size > cfg.fsize
    \/ cfg.nodir

\* new client; the caller checks InitHard(root) = {}
NewClient(root, disk, cfg) ==
    LET wr == cfg.cache /\ ~CannotStore(cfg, "root", root) IN
    [pc |-> "idle", at |-> "", tm |-> NewSet(root),
     disk |-> IF wr THEN ("root" :> root) @@ disk ELSE disk,
     cfg |-> cfg, req |-> NoReq, op |-> [name |-> "", path |-> ""],
     walking |-> FALSE, stack |-> <<>>, visited |-> {}, role |-> "", parent |-> "",
     nxt |-> 0, hi |-> 0, res |-> [role |-> "", doc |-> None], err |-> {}, why |-> {}]

Now(c) == c.cfg.now

Goto(c, at) == [c EXCEPT !.at = at, !.pc = "run"]
EndWalk(c) == [c EXCEPT !.stack = <<>>, !.visited = {}, !.walking = FALSE]
Fail(c, why) == [EndWalk(c) EXCEPT !.pc = "done", !.at = "", !.err = why, !.why = why]
Return(c) == [EndWalk(c) EXCEPT !.pc = "done", !.at = ""]
Ask(c, role, ver, max, at) ==
    [c EXCEPT !.pc = "req", !.at = at, !.req = [role |-> role, ver |-> ver, max |-> max]]
\* persist content id under the file of role, then go on with step at
Persist(c, role, id, at) ==
    IF ~c.cfg.cache THEN Goto(c, at)
    ELSE IF CannotStore(c.cfg, role, id) THEN Fail(c, {"io"})
    ELSE Goto([c EXCEPT !.disk = (role :> id) @@ c.disk], at)

ConsistentSnapshot(c) == Doc(c.tm.root).cs
MaxOf(len, dflt) == IF len = 0 THEN dflt ELSE len

-----------------------------------------------------------------------------
(* Calls *)

StartRefresh(c) ==
    IF c.cfg.offline THEN Goto(c, "offTs")
    ELSE LET v == Doc(c.tm.root).ver IN
         Goto([c EXCEPT !.nxt = v + 1, !.hi = v + c.cfg.maxRot], "rootNext")

CallRefresh(c) ==
    StartRefresh([c EXCEPT !.op = [name |-> "refresh", path |-> ""], !.err = {}, !.why = {}])

CallInfo(c, path) ==
    LET c1 == [c EXCEPT !.op = [name |-> "info", path |-> path], !.err = {}, !.why = {},
                        !.res = [role |-> "", doc |-> None]] IN
    IF Has(c.tm.tg, "targets") THEN Goto(c1, "walk0") ELSE StartRefresh(c1)

-----------------------------------------------------------------------------
(* Internal steps: c.pc = "run" *)

RootNext(c) ==
    IF c.nxt <= c.hi THEN Ask(c, "root", c.nxt, c.cfg.rootMax, "rootGot")
    ELSE Goto(c, "tsLocal")

TsLocal(c) ==
    IF ~Has(c.disk, "timestamp") THEN Ask(c, "timestamp", NoVer, c.cfg.tsMax, "tsGot")
    ELSE LET u == UpdTs(c.tm, c.disk["timestamp"], Now(c)) IN
         IF "order" \in u.hard THEN Fail(c, u.hard)
         ELSE Ask([c EXCEPT !.tm = u.tm], "timestamp", NoVer, c.cfg.tsMax, "tsGot")

SnAsk(c) ==
    LET e == SnapEntry(c.tm.ts) IN
    Ask(c, "snapshot", IF ConsistentSnapshot(c) THEN e.ver ELSE NoVer, MaxOf(e.len, c.cfg.snMax), "snGot")
SnLocal(c) ==
    IF ~Has(c.disk, "snapshot") THEN SnAsk(c)
    ELSE LET u == UpdSn(c.tm, c.disk["snapshot"], TRUE, Now(c)) IN
         IF "order" \in u.hard THEN Fail(c, u.hard)
         ELSE IF u.hard \cup u.soft = {} THEN Goto([c EXCEPT !.tm = u.tm, !.role = "targets", !.parent = "root"], "tgLocal")
         ELSE SnAsk([c EXCEPT !.tm = u.tm])

\* load the metadata of c.role, delegated by c.parent; then "loaded"
TgAsk(c) ==
    IF c.cfg.offline THEN Fail(c, {"offline"})
    ELSE IF ~Has(Doc(c.tm.sn).meta, File(c.role)) THEN Fail(c, {"unlisted"})
    ELSE LET e == Doc(c.tm.sn).meta[File(c.role)] IN
         Ask(c, c.role, IF ConsistentSnapshot(c) THEN e.ver ELSE NoVer, MaxOf(e.len, c.cfg.tgMax), "tgGot")
TgLocal(c) ==
    IF Has(c.tm.tg, c.role) THEN Goto(c, "loaded")
    ELSE IF ~Has(c.disk, c.role) THEN TgAsk(c)
    ELSE LET u == UpdTg(c.tm, c.disk[c.role], c.role, c.parent, Now(c)) IN
         IF "order" \in u.hard THEN Fail(c, u.hard)
         ELSE IF u.hard = {} THEN Goto([c EXCEPT !.tm = u.tm], "loaded")
         ELSE TgAsk(c)

\* the role asked for is in c.tm.tg
Loaded(c) ==
    IF c.walking THEN Goto(c, "visit")
    ELSE IF c.op.name = "info" THEN Goto(c, "walk0")
    ELSE Return(c)

\* the depth first search for c.op.path, in order of appearance
Walk0(c) == Goto([c EXCEPT !.stack = <<[role |-> "targets", parent |-> "root"]>>, !.visited = {}, !.walking = TRUE], "walk")
Walk(c) ==
    IF c.stack = <<>> \/ Cardinality(c.visited) > c.cfg.maxDel THEN Fail(c, {"notfound"})
    ELSE LET top == c.stack[Len(c.stack)]
             rest == SubSeq(c.stack, 1, Len(c.stack) - 1) IN
         IF top.role \in c.visited THEN Goto([c EXCEPT !.stack = rest], "walk")
         ELSE Goto([c EXCEPT !.stack = rest, !.role = top.role, !.parent = top.parent], "wload")
WLoad(c) ==
    IF Has(c.tm.tg, c.role) THEN Goto(c, "visit") ELSE Goto(c, "tgLocal")

\* the children up to and including the first terminating one
Cut(ch) ==
    IF \E i \in DOMAIN ch : ch[i].term
    THEN SubSeq(ch, 1, CHOOSE i \in DOMAIN ch : ch[i].term /\ \A j \in 1..(i - 1) : ~ch[j].term)
    ELSE ch
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

Visit(c) ==
    LET d == Doc(c.tm.tg[c.role]) IN
    IF Has(d.tgts, c.op.path)
    THEN Return([c EXCEPT !.res = [role |-> c.role, doc |-> c.tm.tg[c.role]]])
    ELSE LET all == Children(d, c.op.path)
             ch == Cut(all)
             terminated == \E i \in DOMAIN all : all[i].term
             push == [i \in DOMAIN ch |-> [role |-> ch[i].name, parent |-> c.role]] IN
         Goto([c EXCEPT !.visited = @ \cup {c.role},
                        !.stack = (IF terminated THEN <<>> ELSE @) \o Reversed(push)], "walk")

\* refresh from the cache only
OffTs(c) ==
    IF ~Has(c.disk, "timestamp") THEN Fail(c, {"nolocal"})
    ELSE LET u == UpdTs(c.tm, c.disk["timestamp"], Now(c)) IN
         IF u.hard \cup u.soft # {} THEN Fail([c EXCEPT !.tm = u.tm], u.hard \cup u.soft)
         ELSE Goto([c EXCEPT !.tm = u.tm], "offSn")
OffSn(c) ==
    IF ~Has(c.disk, "snapshot") THEN Fail(c, {"nolocal"})
    ELSE LET u == UpdSn(c.tm, c.disk["snapshot"], FALSE, Now(c)) IN
         IF u.hard \cup u.soft # {} THEN Fail([c EXCEPT !.tm = u.tm], u.hard \cup u.soft)
         ELSE Goto([c EXCEPT !.tm = u.tm], "offTg")
OffTg(c) ==
    IF ~Has(c.disk, "targets") THEN Fail(c, {"nolocal"})
    ELSE LET u == UpdTg(c.tm, c.disk["targets"], "targets", "root", Now(c)) IN
         IF u.hard # {} THEN Fail(c, u.hard)
         ELSE Goto([c EXCEPT !.tm = u.tm, !.role = "targets", !.parent = "root"], "loaded")

\* one internal step
Step(c) ==
    CASE c.at = "rootNext" -> RootNext(c)
      [] c.at = "tsLocal"  -> TsLocal(c)
      [] c.at = "snLocal"  -> SnLocal(c)
      [] c.at = "tgLocal"  -> TgLocal(c)
      [] c.at = "loaded"   -> Loaded(c)
      [] c.at = "walk0"    -> Walk0(c)
      [] c.at = "walk"     -> Walk(c)
      [] c.at = "wload"    -> WLoad(c)
      [] c.at = "visit"    -> Visit(c)
      [] c.at = "offTs"    -> OffTs(c)
      [] c.at = "offSn"    -> OffSn(c)
      [] c.at = "offTg"    -> OffTg(c)

\* internal steps up to the next request or the end of the call
RECURSIVE Run(_)
Run(c) == IF c.pc = "run" THEN Run(Step(c)) ELSE c

-----------------------------------------------------------------------------
(* Answers: r = [k |-> "doc", id |-> i] | [k |-> "http", id |-> code] |       *)
(*              [k |-> "err", id |-> n]                                      *)

GotRoot(c, r) ==
    IF r.k = "http" /\ r.id \in {403, 404} THEN Goto(c, "tsLocal")
    ELSE IF r.k # "doc" THEN Fail(c, {"fetch"})
    ELSE LET u == UpdRoot(c.tm, r.id) IN
         IF u.hard # {} THEN Fail(c, u.hard)
         ELSE Persist([c EXCEPT !.tm = u.tm, !.nxt = @ + 1], "root", r.id, "rootNext")

GotTs(c, r) ==
    IF r.k # "doc" THEN Fail(c, {"fetch"})
    ELSE LET u == UpdTs(c.tm, r.id, Now(c)) IN
         IF u.hard = {"equal"} THEN Goto([c EXCEPT !.why = {"equal"}], "snLocal")
         ELSE IF u.hard \cup u.soft # {} THEN Fail([c EXCEPT !.tm = u.tm], u.hard \cup u.soft)
         ELSE Persist([c EXCEPT !.tm = u.tm], "timestamp", r.id, "snLocal")

GotSn(c, r) ==
    IF r.k # "doc" THEN Fail(c, {"fetch"})
    ELSE LET u == UpdSn(c.tm, r.id, FALSE, Now(c)) IN
         IF u.hard \cup u.soft # {} THEN Fail([c EXCEPT !.tm = u.tm], u.hard \cup u.soft)
         ELSE Persist([c EXCEPT !.tm = u.tm, !.role = "targets", !.parent = "root"], "snapshot", r.id, "tgLocal")

GotTg(c, r) ==
    IF r.k # "doc" THEN Fail(c, {"fetch"})
    ELSE LET u == UpdTg(c.tm, r.id, c.role, c.parent, Now(c)) IN
         IF u.hard # {} THEN Fail(c, u.hard)
         ELSE Persist([c EXCEPT !.tm = u.tm], c.role, r.id, "loaded")

Answer(c, r) ==
    LET c0 == [c EXCEPT !.pc = "run", !.req = NoReq, !.why = {}] IN
    CASE c.at = "rootGot" -> GotRoot(c0, r)
      [] c.at = "tsGot"   -> GotTs(c0, r)
      [] c.at = "snGot"   -> GotSn(c0, r)
      [] c.at = "tgGot"   -> GotTg(c0, r)

Finish(c) == [c EXCEPT !.pc = "idle", !.op = [name |-> "", path |-> ""]]

\* the cache directory disappears
DirGone(c) == [c EXCEPT !.disk = EmptyFn, !.cfg.nodir = TRUE]

\* what survives the end of the process, or a crash at any step
Remains(c) == c.disk
=============================================================================
