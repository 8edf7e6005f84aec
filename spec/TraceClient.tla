----------------------------- MODULE TraceClient -----------------------------
(***************************************************************************)
(* Checks executions recorded from the updater against Client.tla.          *)
(* Each scenario is one independent behaviour: a sequence of sessions of    *)
(* one cache directory.  At every event                                     *)
(*   - the recorded event must be the one the specification takes next,     *)
(*     with the same arguments, trusted set, cache and result ("diffs");    *)
(*   - every property is evaluated on the recorded state and step itself,   *)
(*     whether or not the execution conformed so far ("props").             *)
(* Violations are printed; the number of distinct states proves that every  *)
(* event was consumed.                                                      *)
(***************************************************************************)
EXTENDS TraceCommon
INSTANCE Client WITH Doc <- DocOf, PathInfo <- PathOf
S == INSTANCE Store

VARIABLES s, l, c, p, x, ok, cov, st
vars == <<s, l, c, p, x, ok, cov, st>>
\* c: state of the specification; p: last recorded [tm, disk]
\* x: context of the session [d0: disk at the start, last: last answer, pend: the client has yet to take it, cfg, call]
\* st: the clients of the directory that wait while another one is at work [cur: the one at work, sv: the others, on]

Evs == T.scens[s].ev
NoObs == [tm |-> NewSet(None), disk |-> EmptyFn]
NoLast == [role |-> "", k |-> "", id |-> 0]
NoCfg == [maxRot |-> 0, maxDel |-> 0, cache |-> FALSE, offline |-> FALSE, now |-> 0, blocked |-> <<>>, fsize |-> 0, nodir |-> FALSE]
X0 == [d0 |-> EmptyFn, was |-> EmptyFn, last |-> NoLast, cfg |-> NoCfg, call |-> "", live |-> FALSE, dam |-> FALSE, n |-> 0, pend |-> FALSE]

Init ==
    /\ s \in 1..Len(T.scens)
    /\ l = 1
    /\ c = [pc |-> "none"]
    /\ p = NoObs /\ x = X0 /\ ok = TRUE /\ cov = {}
    /\ st = [cur |-> 1, sv |-> <<>>, on |-> FALSE]

\* JSON gives a record for a non-empty object; it is a function on strings
Obs(e) == [tm |-> e.tm, disk |-> e.disk]
SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
SameTm(a, b) == a.root = b.root /\ a.ts = b.ts /\ a.sn = b.sn /\ SameFn(a.tg, b.tg)

Slot(tm, r) ==
    CASE r = "root" -> tm.root [] r = "timestamp" -> tm.ts [] r = "snapshot" -> tm.sn
      [] OTHER -> IF Has(tm.tg, r) THEN tm.tg[r] ELSE None
At(f, r) == IF Has(f, r) THEN f[r] ELSE None
Slots(tm) == {"root", "timestamp", "snapshot"} \cup DOMAIN tm.tg

\* why the last answered document must be refused by a client whose trusted set was tm
LastHard(tm) ==
    LET r == x.last.role id == x.last.id IN
    IF x.last.k # "doc" THEN {}
    ELSE CASE r = "root" -> RootHard(tm, id)
           [] r = "timestamp" -> TsHard(tm, id, x.cfg.now)
           [] r = "snapshot" -> SnHard(tm, id, FALSE, x.cfg.now)
           [] OTHER -> {}

\* --- the properties, on the recorded states only
SetProps(o) ==
    If(~TypedInv(o), "C01") \cup
    (IF ~TypedInv(o) THEN {} ELSE
       If(~SignedInv(o), "C01")
       \cup If(~FreshInv(o, x.cfg.now), "C04")
       \cup If(~ConsistentInv(o), "C05")
       \cup If(~OrderInv(o), "C06"))
CrossSession(o) ==
    LET r == DocOf(o.root)
        t == At(x.d0, "timestamp")  sn == At(x.d0, "snapshot")
        tsValid == t # None /\ ShapeReasons(DocOf(t), "timestamp") = {} /\ RootSig(r, "timestamp", DocOf(t)) = {}
                   /\ Has(DocOf(t).meta, "snapshot.json")
        snValid == sn # None /\ ShapeReasons(DocOf(sn), "snapshot") = {} /\ RootSig(r, "snapshot", DocOf(sn)) = {} IN
    \* a cached timestamp still signed by the timestamp keys is never rolled back
    /\ (tsValid /\ o.sn # None) => TsNotOlder(t, o.ts)
    /\ (snValid /\ DOMAIN o.tg # {} ) => SnNotOlder(sn, o.sn)
StepProps(q, o, e) ==   \* q -> o: consecutive recorded sets of a session
    LET L == x.last IN
    (IF ~TypedInv(o) THEN {} ELSE
        If(~DelegStepOK(q.tm, o), "C01")
        \cup If(~RootStepOK(q.tm, o), "C02")
        \cup If(~MonotonicStep(q.tm, o), "C03")
        \cup If(~OrderStep(q.tm, o), "C06")
        \cup If(~CrossSession(o), "C03")
        \* what came from the network must be what the timestamp says
        \cup If(o.sn # q.tm.sn /\ o.sn # None /\ L.role = "snapshot" /\ o.sn = L.id /\ o.sn # At(q.disk, "snapshot")
                  /\ ~EntryOK(SnapEntry(o.ts), o.sn), "C05"))
    \* a slot holds what it held, the document just delivered for it, or the cached one
    \cup If(\E r \in Slots(o) \cup Slots(q.tm) :
              Slot(o, r) \notin {Slot(q.tm, r), At(q.disk, r), At(x.was, r)} \cup (IF L.k = "doc" /\ L.role = r THEN {L.id} ELSE {}), "C07")
    \* an operation that fails on a refused document leaves the set as it was
    \cup If(e.e = "ret" /\ e.err /\ L.k = "doc" /\ LastHard(q.tm) \notin {{}, {"equal"}}
              /\ Slot(o, L.role) # Slot(q.tm, L.role), "C07")
DiskProps(q, o, d, e) ==
    LET L == x.last IN
    IF ~x.cfg.cache THEN If(~SameFn(q.disk, d), "C19")
    ELSE
      \* a cached file changes only to the verified document of its role
      If(\E r \in DOMAIN d : d[r] # At(q.disk, r) /\ ~(d[r] = Slot(o, r) /\ L.role = r /\ L.id = d[r]), "C08")
      \* nor may the file of one role change because of another
      \cup If(\E r \in DOMAIN d : d[r] # At(q.disk, r) /\ L.k = "doc" /\ L.role # r /\ L.id = d[r], "C19")
      \cup If(\E r \in DOMAIN q.disk : ~Has(d, r), "C08")
      \* and a verified document that came from the network is in the cache
      \cup If(L.k = "doc" /\ Slot(o, L.role) = L.id /\ Slot(q.tm, L.role) # L.id
                /\ At(d, L.role) # L.id /\ ~x.cfg.nodir /\ ~(e.e = "ret" /\ e.err), "C08")
\* the files of the cache, step by step, and files where there should be none
FileProps(e) ==
    If(S!StoreRun(S!Store0, e.fs).torn # {}, "C09")
    \cup UNION {{"C19"} \cup If(e.stray[k].where \in {"md", "tmp"}, "C09") : k \in DOMAIN e.stray}
    \cup If(~x.cfg.cache /\ e.fs # <<>>, "C19")
RetProps(o, e) ==
    IF e.e # "ret" \/ e.err THEN {}
    ELSE If(o.root = None \/ o.ts = None \/ o.sn = None \/ ~Has(o.tg, "targets"), "C06")
         \cup (IF o.ts = None \/ o.sn = None \/ ~TypedInv(o) THEN {} ELSE
                If(\E id \in {o.root, o.ts, o.sn} : Expired(id, x.cfg.now), "C04"))
OffProps(e) == If(e.e = "fetch" /\ x.cfg.offline, "C20")
Props(o, e) ==
    SetProps(o.tm) \cup StepProps(p, o.tm, e) \cup DiskProps(p, o.tm, o.disk, e) \cup RetProps(o.tm, e) \cup OffProps(e) \cup FileProps(e)

\* --- conformance: m specified, e recorded
TmDiffs(m, o) ==
    UNION {IF Slot(m, r) = Slot(o, r) THEN {}
           ELSE {IF Slot(o, r) = Slot(p.tm, r) THEN "tm.notaccepted" ELSE "tm.unexpected"} : r \in Slots(m) \cup Slots(o)}
DiskDiffs(m, d) == If(~SameFn(m, d), "disk")
StateDiffs(m, e) == TmDiffs(m.tm, e.tm) \cup DiskDiffs(m.disk, e.disk)

FetchDiffs(m, e) ==
    IF m.pc # "req" THEN
        {IF m.err = {} THEN "fetch.forok" ELSE "fetch.forerr"}
    ELSE If(m.req.role # e.role, "req.role")
         \cup If(m.req.role = e.role /\ m.req.ver # e.ver, "req.ver")
         \cup If(m.req.role = e.role /\ m.req.max # e.max, "req.max")
RetDiffs(m, e) ==
    IF m.pc = "req" THEN {IF e.err THEN "ret.errforfetch" ELSE "ret.okforfetch"}
    ELSE IF m.err = {} THEN
        If(e.err, "ret.errforok") \cup If(~e.err /\ m.op.name = "info" /\ (m.res.role # e.role \/ m.res.doc # e.doc), "ret.res")
    ELSE If(~e.err, "ret.okforerr")

\* --- the properties a deviation violates
\* what speaks against document id in slot r of the set o
SlotReasons(o, r, id) ==
    LET noTg == [k \in DOMAIN o.tg \ {r} |-> o.tg[k]] IN
    CASE r = "root" -> RootHard([p.tm EXCEPT !.ts = None], id)
      [] r = "timestamp" -> TsHard([root |-> o.root, ts |-> p.tm.ts, sn |-> None, tg |-> EmptyFn], id, x.cfg.now) \cup TsSoft(id, x.cfg.now)
      [] r = "snapshot" -> IF o.ts = None THEN {"order"}
                           ELSE SnHard([root |-> o.root, ts |-> o.ts, sn |-> p.tm.sn, tg |-> EmptyFn], id, id = At(p.disk, "snapshot"), x.cfg.now)
                                \cup SnSoft(o.ts, id, x.cfg.now)
      [] OTHER -> IF o.ts = None \/ o.sn = None THEN {"order"}
                  ELSE LET ps == IF r = "targets" THEN {"root"} ELSE DOMAIN noTg
                           rs == {TgHard([o EXCEPT !.tg = noTg], id, r, pa, x.cfg.now) : pa \in ps} IN
                       IF {} \in rs THEN {} ELSE UNION rs
Walking(m) == m.walking \/ (m.op.name = "info" /\ Has(m.tm.tg, "targets"))
\* properties about choosing the next thing to do
WalkProps == {"C12", "C13", "C14"}
LastWas(k) == x.last.k = k
DiffProps(m, e, diffs) ==
    LET d(t) == t \in diffs
        root == (m.pc = "req" /\ m.req.role = "root") \/ x.last.role = "root"
        refused == m.err \cup m.why
        walk == Walking(m)
        bad == UNION {IF Slot(e.tm, r) # Slot(m.tm, r) /\ Slot(e.tm, r) # Slot(p.tm, r) /\ Slot(e.tm, r) # None /\ TypedInv(e.tm)
                      THEN Blame(r, SlotReasons(e.tm, r, Slot(e.tm, r))) ELSE {} : r \in Slots(e.tm)}
        lastRefused == LastWas("doc") /\ refused # {}
        lastFailed == x.last.k \in {"http", "err"}
        goOn == Blame(x.last.role, refused) \cup If(lastFailed /\ x.last.role = "root", "C16") \cup If(lastFailed, "C11")
                \cup If("offline" \in refused \/ "nolocal" \in refused, "C20")
                \cup If("unlisted" \in refused, "C05") \cup If(walk /\ refused # {}, "C12") IN
    bad
    \cup (IF d("tm.unexpected") /\ bad = {} THEN
            If(walk, "C12") \cup If(~walk, "C06") \cup If(~walk, "C18")
            \cup UNION {IF Slot(e.tm, r) # Slot(m.tm, r) THEN Blame(r, refused) ELSE {} : r \in Slots(e.tm)} ELSE {})
    \cup (IF d("tm.notaccepted") THEN
            (IF LastWas("doc") /\ Slot(m.tm, x.last.role) = x.last.id /\ Slot(e.tm, x.last.role) # x.last.id
             THEN {"C11"} \cup If(m.err # {}, "C03") ELSE {"C18", "C11"} \cup If(m.err # {} \/ refused # {}, "C03"))
            \cup If(walk, "C12") ELSE {})
    \cup (IF d("fetch.forok") THEN If(walk, "C12") \cup If(walk, "C14") \cup If(~walk, "C18") \cup If(root, "C16") ELSE {})
    \cup (IF d("fetch.forerr") THEN goOn \cup If(m.err = {"notfound"}, "C14") ELSE {})
    \cup (IF d("req.role") THEN If(walk, "C12") \cup If(walk, "C13") \cup If(root, "C16") \cup If(root, "C14") \cup If(~walk /\ ~root, "C18")
                                \cup If(~walk /\ ~root, "C06")
                                \* contented itself with what its cache had
                                \cup If(~walk /\ ~root /\ m.req.role \in DOMAIN x.d0, "C10") \cup (IF x.last.role = m.req.role /\ LastWas("doc") THEN {"C11"} ELSE {})
                                \cup If(e.role \notin TopLevel, "C18")
          ELSE {})
    \cup If(d("req.ver"), "C18")
    \cup (IF d("req.max") THEN {"C15"} ELSE {})
    \cup (IF d("disk") THEN If(x.cfg.cache, "C08") \cup If(~x.cfg.cache, "C19") \cup If(root, "C16") ELSE {})
    \cup (IF d("ret.errforok") THEN {"C11"} \cup If(walk, "C12") ELSE {})
    \cup (IF d("ret.errforfetch") THEN {"C11"} \cup If(root, "C16") \cup If(walk, "C12") \cup If(\E r \in DOMAIN e.disk : r = m.req.role, "C10") ELSE {})
    \cup (IF d("ret.okforfetch") THEN If(root, "C16") \cup If(walk, "C12") \cup If(walk, "C13") \cup If(~walk, "C06") ELSE {})
    \cup (IF d("ret.okforerr") THEN goOn \cup If(m.err = {"notfound"}, "C12") \cup If(m.err = {"notfound"}, "C13") ELSE {})
    \cup (IF d("ret.res") THEN {"C12", "C13"} ELSE {})
    \cup (IF x.dam /\ diffs \cap {"ret.errforok", "ret.errforfetch", "tm.unexpected", "tm.notaccepted"} # {} THEN {"C10"} ELSE {})
    \cup (IF x.cfg.offline THEN {"C20"} ELSE {})

Shared == IF st.on THEN {"C32"} ELSE {}
Report(kind, e, m, diffs, props) ==
    IF diffs \cup props = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props \cup Shared, m.err \cup m.why,
                  [kind |-> kind, at |-> m.at, req |-> m.req, last |-> x.last, call |-> x.call]>>))
None0 == [err |-> {}, why |-> {}, at |-> "", req |-> NoReq]

Tag(a, b) == a \o ":" \o b
CovOf(m) == {Tag(IF x.last.role \in TopLevel \cup {""} THEN x.last.role ELSE "delegated", w) : w \in m.why \cup m.err}

\* the answer is taken when the client goes on, not when it was given
Go == Run(IF x.pend THEN Answer(c, [k |-> x.last.k, id |-> x.last.id]) ELSE c)

\* --- events
DoNew(e) ==
    LET hard == InitHard(e.root)
        io == e.cfg.cache /\ e.root > 0 /\ CannotStore(e.cfg, "root", e.root)
        good == hard = {} /\ ~io
        m == NewClient(e.root, e.pre, e.cfg)
        d == IF good THEN If(e.err, "new.errforok") ELSE If(~e.err, "new.okforerr")
        d2 == IF good /\ ~e.err THEN StateDiffs(m, e) ELSE DiskDiffs(e.pre, e.disk)
        props == (IF e.err THEN If(good, "C11") ELSE
                   Blame("root", hard) \cup If(hard = {} /\ io, "C08") \cup If(e.tm.root # e.root, "C07"))
                 \cup If("disk" \in d2, IF e.cfg.cache THEN "C08" ELSE "C19")
                 \cup If(e.err /\ good /\ DOMAIN e.pre # {}, "C10")
                 \cup If(S!StoreRun(S!Store0, e.fs).torn # {}, "C09")
                 \cup UNION {{"C19"} \cup If(e.stray[k].where \in {"md", "tmp"}, "C09") : k \in DOMAIN e.stray}
                 \cup If(~e.cfg.cache /\ e.fs # <<>>, "C19") \cup If(~e.err /\ io, "C09") IN
    /\ Report("new", e, None0, d \cup d2, props)
    /\ c' = m
    /\ ok' = (d \cup d2 = {})
    /\ p' = Obs(e)
    /\ x' = [X0 EXCEPT !.d0 = e.pre, !.cfg = e.cfg, !.live = ~e.err, !.dam = \E r \in DOMAIN e.pre : e.pre[r] < 1 \/ ~DocOf(e.pre[r]).json]
    /\ cov' = cov \cup {Tag("new", w) : w \in hard} \cup If(good, "new:ok") \cup If(e.cfg.offline, "offline") \cup If(~e.cfg.cache, "nocache")
DoCall(e) ==
    /\ c' = IF ~ok THEN c ELSE IF e.op = "refresh" THEN CallRefresh(c) ELSE CallInfo(c, e.path)
    /\ x' = [x EXCEPT !.call = e.op, !.last = NoLast, !.n = 0]
    /\ UNCHANGED <<ok, p, cov>>
DoFetch(e) ==
    LET m == Go
        diffs == IF ~ok THEN {} ELSE FetchDiffs(m, e) \cup StateDiffs(m, e)
        props == Props(Obs(e), e) \cup (IF diffs = {} THEN {} ELSE DiffProps(m, e, diffs))
                 \cup If(x.n >= x.cfg.maxRot + 4 + x.cfg.maxDel, "C14")
                 \cup If(~e.wire, "C15") \cup If(~e.wire /\ e.role = "root", "C16") IN
    /\ Report("fetch", e, IF ok THEN m ELSE None0, diffs, props)
    /\ ok' = (ok /\ diffs = {})
    /\ c' = IF ok' THEN m ELSE c
    /\ p' = Obs(e)
    /\ x' = [x EXCEPT !.last = [role |-> e.role, k |-> e.k, id |-> e.id], !.n = @ + 1, !.pend = TRUE, !.live = x.live /\ TypedInv(e.tm) /\ e.k # "crash"]
    /\ cov' = cov \cup (IF ok THEN CovOf(m) ELSE {}) \cup {Tag("answer", e.k)}
DoNoDir(e) ==
    /\ Report("nodir", e, None0, {}, If(S!StoreRun(S!Store0, e.fs).torn # {}, "C09"))
    /\ c' = IF ok THEN DirGone(Go) ELSE c
    /\ p' = [p EXCEPT !.disk = EmptyFn]
    /\ x' = [x EXCEPT !.cfg.nodir = TRUE, !.was = p.disk, !.pend = FALSE]
    /\ cov' = cov \cup {"nodir"}
    /\ UNCHANGED ok
DoRet(e) ==
    LET m == Go
        diffs == IF ~ok THEN {} ELSE RetDiffs(m, e) \cup StateDiffs(m, e)
        props == Props(Obs(e), e) \cup (IF diffs = {} THEN {} ELSE DiffProps(m, e, diffs)) IN
    /\ Report("ret", e, IF ok THEN m ELSE None0, diffs, props)
    /\ ok' = (ok /\ diffs = {})
    /\ c' = IF ok' THEN Finish(m) ELSE c
    /\ p' = Obs(e)
    /\ x' = [x EXCEPT !.last = NoLast, !.pend = FALSE, !.live = x.live /\ TypedInv(e.tm)]
    /\ cov' = cov \cup (IF ok THEN CovOf(m) \cup If(m.err = {}, Tag(m.op.name, "ok")) ELSE {})
\* the process panicked (C27), did not come to an end or issued requests for ever (C14)
DoStop(e) ==
    /\ PrintT("BAD " \o ToJson(<<T.scens[s].n, l, {e.e}, Shared \cup (IF e.e = "panic" THEN {"C27"} \cup If(x.dam, "C10") ELSE {"C14"}), {}, e>>))
    /\ x' = [x EXCEPT !.live = FALSE] /\ ok' = FALSE
    /\ UNCHANGED <<c, p, cov>>

\* --- several clients, one directory
Changed(d, o) == {r \in DOMAIN d \cup DOMAIN o : At(d, r) # At(o, r)}
\* the state of a client whose cache is now as others have left it
SeeC(q, d) == IF "disk" \in DOMAIN q THEN [q EXCEPT !.disk = d] ELSE q
SeeX(q, was, d) == [q EXCEPT !.d0 = [r \in DOMAIN @ \ Changed(was, d) |-> @[r]], !.was = EmptyFn]
Fresh0 == [c |-> [pc |-> "none"], p |-> NoObs, x |-> X0, ok |-> TRUE]
\* the client e.to goes on
DoSwitch(e) ==
    LET sv == (st.cur :> [c |-> c, p |-> p, x |-> x, ok |-> ok]) @@ st.sv
        b == IF e.to \in DOMAIN sv THEN sv[e.to] ELSE Fresh0 IN
    /\ st' = [cur |-> e.to, sv |-> sv, on |-> TRUE]
    /\ c' = SeeC(b.c, e.disk) /\ p' = [b.p EXCEPT !.disk = e.disk] /\ x' = SeeX(b.x, b.p.disk, e.disk) /\ ok' = b.ok
    /\ cov' = cov \cup {"switch"} \cup {Tag("meanwhile", IF r \in TopLevel THEN r ELSE "delegated") : r \in (IF b.x.live THEN Changed(b.p.disk, e.disk) ELSE {})}
\* others have changed files of the cache
DoEnv(e) ==
    /\ st' = [st EXCEPT !.on = TRUE]
    /\ c' = SeeC(c, e.disk) /\ p' = [p EXCEPT !.disk = e.disk] /\ x' = SeeX(x, p.disk, e.disk)
    /\ cov' = cov \cup {Tag("env", IF r \in TopLevel THEN r ELSE "delegated") : r \in Changed(p.disk, e.disk)}
    /\ UNCHANGED ok

\* many clients of a correct repository at once: each ends as it would alone (MCTwo), and the files are always whole
PubId(pub, req) == LET is == {i \in DOMAIN pub : pub[i].role = req.role /\ pub[i].ver = req.ver} IN
                   IF is = {} THEN [k |-> "http", id |-> 404] ELSE [k |-> "doc", id |-> pub[CHOOSE i \in is : TRUE].id]
RECURSIVE Alone(_, _)
Alone(m, pub) == CASE m.pc = "run" -> Alone(Step(m), pub) [] m.pc = "req" -> Alone(Answer(m, PubId(pub, m.req)), pub) [] OTHER -> m
DoCrowd(e) ==
    LET N == NewClient(e.root, EmptyFn, e.cfg)
        M == [i \in DOMAIN e.outs |-> Alone(IF e.outs[i].path = "" THEN CallRefresh(N) ELSE CallInfo(N, e.outs[i].path), e.pub)]
        d(i) == LET m == M[i] o == e.outs[i] IN
                If(m.err = {} /\ o.err, "crowd.errforok") \cup If(m.err # {} /\ ~o.err, "crowd.okforerr") \cup If(~SameTm(m.tm, o.tm), "crowd.tm")
                \cup If(m.err = {} /\ ~o.err /\ (m.res.role # o.role \/ m.res.doc # o.doc), "crowd.res")
        any == M[1]
        f == {r \in TopLevel : At(e.disk, r) # At(any.disk, r) /\ any.err \in {{}, {"notfound"}}}
        diffs == UNION {d(i) : i \in DOMAIN e.outs} \cup If(f # {}, "crowd.disk") \cup If(e.torn # <<>>, "crowd.torn") \cup If(e.gone # <<>>, "crowd.gone")
                 \cup If(e.stray # <<>>, "crowd.stray")
        props == IF diffs = {} THEN {} ELSE {"C32"} \cup If(diffs \cap {"crowd.torn", "crowd.gone", "crowd.stray"} # {}, "C09") \cup If("crowd.stray" \in diffs, "C19") IN
    /\ (diffs # {} => PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, {}, [outs |-> e.outs, torn |-> e.torn, gone |-> e.gone]>>)))
    /\ cov' = cov \cup {"crowd:" \o (IF M[i].err = {} THEN "ok" ELSE "err") : i \in DOMAIN M}
    /\ UNCHANGED <<c, p, x, ok>>
DoOne(e) ==
    /\ UNCHANGED st
    /\ CASE e.e \in {"panic", "hang", "flood"} -> DoStop(e)
         [] e.e = "libfail" -> PrintT("BAD " \o ToJson(<<T.scens[s].n, l, {e.e}, {"C11", "C24", "C25", "C26"}, {}, e>>)) /\ UNCHANGED <<c, p, x, ok, cov>>
         [] e.e = "new" -> DoNew(e)
         [] e.e = "crowd" -> DoCrowd(e)
         [] ~x.live -> UNCHANGED <<c, p, x, ok, cov>>
         [] e.e = "call" -> DoCall(e)
         [] e.e = "nodir" -> DoNoDir(e)
         [] e.e = "fetch" -> DoFetch(e)
         [] e.e = "ret" -> DoRet(e)
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       /\ IF e.e = "switch" THEN DoSwitch(e) ELSE IF e.e = "env" THEN DoEnv(e) ELSE DoOne(e)
    /\ l' = l + 1
    /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))

Spec == Init /\ [][Next]_vars
=============================================================================
