-------------------------------- MODULE MCClient --------------------------------
(***************************************************************************)
(* Client.tla in the world of Pool.tla: sessions of one cache directory     *)
(* against a repository that answers whatever it likes, with crashes at any *)
(* step.  The properties of the design are checked in every state.          *)
(***************************************************************************)
EXTENDS Pool, Json, IOUtils
CONSTANTS MaxSess, MaxCalls, Times, Disks, Rots, Dels, Offs, Ans, Gen

INSTANCE Client WITH Doc <- PoolDoc, PathInfo <- PoolPath

VARIABLES c, sess, calls, n, d0, h
vars == <<c, sess, calls, n, d0, h>>
\* d0: the cache when the session began; h: the choices made so far

NameRole(name) == CASE SubSeq(name, 1, 1) = "R" -> "root" [] SubSeq(name, 1, 1) = "T" -> "timestamp"
                    [] SubSeq(name, 1, 1) = "S" -> "snapshot" [] SubSeq(name, 1, 1) = "G" -> "targets"
                    [] SubSeq(name, 1, 1) = "A" -> "a" [] SubSeq(name, 1, 1) = "B" -> "b" [] OTHER -> "junk"
DocsOf(role) == {i \in Ids : NameRole(Table[i][1]) = role}
\* what the repository may answer: documents of the role, one of another, no answer
Foreign(role) == IF role = "timestamp" THEN {Id("S1")} ELSE {Id("T2")}
\* what it does answer
Good == {Id(x) : x \in {"R2", "R3", "T1", "T2", "T2n", "S1", "S2", "G1", "G2", "A1", "B1"}}
Answers(role) ==
  IF Ans = "few" THEN {[k |-> "doc", id |-> i] : i \in DocsOf(role) \cap Good} \cup {[k |-> "http", id |-> 404]}
  ELSE
    {[k |-> "doc", id |-> i] : i \in DocsOf(role) \cup Foreign(role) \cup {Id("junk")}}
    \cup {[k |-> "http", id |-> 404], [k |-> "http", id |-> 500], [k |-> "err", id |-> 1]}

\* caches a first session may find
DiskSets ==
    CASE Disks = "empty" -> {EmptyFn}
      [] Disks = "some" -> {EmptyFn,
            ("timestamp" :> Id("T2")) @@ ("snapshot" :> Id("S2")) @@ ("targets" :> Id("G2")) @@ ("a" :> Id("A1")),
            ("timestamp" :> Id("T3exp")) @@ ("snapshot" :> Id("S2exp")) @@ ("targets" :> Id("G2exp")) @@ ("a" :> Id("Afake")),
            ("timestamp" :> Id("junk")) @@ ("snapshot" :> Id("T1")) @@ ("targets" :> Id("S1")) @@ ("root" :> Id("junk")),
            ("timestamp" :> Id("Tfake")) @@ ("snapshot" :> Id("S2")) @@ ("targets" :> Id("G1")) @@ ("b" :> Id("B1")),
            ("timestamp" :> Id("T2n")) @@ ("snapshot" :> Id("S2miss"))}
      [] Disks = "all" ->
            LET opt(role) == {0} \cup DocsOf(role) \cup {Id("junk")}
                fn(t, s, g, a) == LET f == [timestamp |-> t, snapshot |-> s, targets |-> g, a |-> a] IN
                                  [k \in {k \in DOMAIN f : f[k] # 0} |-> f[k]] IN
            {fn(t, s, g, a) : t \in opt("timestamp"), s \in opt("snapshot"), g \in opt("targets"), a \in opt("a")}
Cfgs == {[maxRot |-> r, maxDel |-> m, rootMax |-> 512000, tsMax |-> 16384, snMax |-> 2000000, tgMax |-> 5000000,
          cache |-> TRUE, offline |-> o, now |-> t, blocked |-> <<>>, fsize |-> 0, nodir |-> FALSE] : r \in Rots, m \in Dels, o \in Offs, t \in Times}

Off(disk) == [pc |-> "off", disk |-> disk, tm |-> NewSet(None)]
Init ==
    /\ \E d \in DiskSets : c = Off(d) /\ d0 = d
    /\ sess = 0 /\ calls = 0 /\ n = 0 /\ h = <<[d |-> c.disk]>>

\* time does not go back
LaterCfg(g) == IF sess = 0 THEN TRUE ELSE g.now >= c.last.now
New ==
    /\ c.pc = "off" /\ sess < MaxSess
    /\ \E g \in Cfgs, rid \in {Id("R1")} \cup ({At \in {c.disk[k] : k \in DOMAIN c.disk \cap {"root"}} : InitHard(At) = {}}) :
          /\ LaterCfg(g)
          /\ c' = NewClient(rid, c.disk, g)
          /\ h' = Append(h, [n |-> rid, c |-> <<g.maxRot, g.maxDel, IF g.offline THEN 1 ELSE 0>>])
    /\ d0' = c.disk /\ sess' = sess + 1 /\ calls' = 0 /\ n' = 0
Call ==
    /\ c.pc = "idle" /\ calls < MaxCalls
    /\ \/ c' = CallRefresh(c) /\ h' = Append(h, [p |-> ""])
       \/ \E path \in {"x", "y"} : c' = CallInfo(c, path) /\ h' = Append(h, [p |-> path])
    /\ calls' = calls + 1 /\ n' = 0 /\ UNCHANGED <<sess, d0>>
Internal == c.pc = "run" /\ c' = Step(c) /\ UNCHANGED <<sess, calls, n, d0, h>>
Request ==
    /\ c.pc = "req"
    /\ \E r \in Answers(c.req.role) : c' = Answer(c, r) /\ h' = Append(h, [a |-> r.k, i |-> r.id])
    /\ n' = n + 1 /\ UNCHANGED <<sess, calls, d0>>
Ret == c.pc = "done" /\ c' = Finish(c) /\ UNCHANGED <<sess, calls, n, d0, h>>
\* the process ends, or is killed
Crash ==
    /\ c.pc # "off"
    /\ c' = [pc |-> "off", disk |-> Remains(c), tm |-> NewSet(None), last |-> [now |-> c.cfg.now]]
    /\ h' = Append(h, [x |-> 1])
    /\ n' = 0 /\ UNCHANGED <<sess, calls, d0>>
Next == New \/ Call \/ Internal \/ Request \/ Ret \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Request) /\ WF_vars(Ret)

\* h only serves to write the behaviours down
View == <<c, sess, calls, n, d0>>

On == c.pc # "off"
Runs == On /\ c'.pc # "off"        \* a step of a running client
Typed == On => TypedInv(c.tm)
Signed == On => SignedInv(c.tm)
Fresh == On => FreshInv(c.tm, c.cfg.now)
Consistent == On => ConsistentInv(c.tm)
Order == On => OrderInv(c.tm)
StepRoot == [][Runs => RootStepOK(c.tm, c'.tm)]_vars
StepMonotonic == [][Runs => MonotonicStep(c.tm, c'.tm)]_vars
StepOrder == [][Runs => OrderStep(c.tm, c'.tm)]_vars
StepDeleg == [][Runs => DelegStepOK(c.tm, c'.tm)]_vars
\* C03 across sessions: what was in the cache and is still correctly signed is not rolled back
CrossSession ==
    On => LET r == PoolDoc(c.tm.root)
              at(k) == IF Has(d0, k) THEN d0[k] ELSE None
              valid(id, k) == id # None /\ ShapeReasons(PoolDoc(id), k) = {} /\ RootSig(r, k, PoolDoc(id)) = {} IN
          /\ (valid(at("timestamp"), "timestamp") /\ Has(PoolDoc(at("timestamp")).meta, "snapshot.json") /\ c.tm.sn # None) => TsNotOlder(at("timestamp"), c.tm.ts)
          /\ (valid(at("snapshot"), "snapshot") /\ DOMAIN c.tm.tg # {}) => SnNotOlder(at("snapshot"), c.tm.sn)
\* C08: a cached file only ever becomes the document just accepted for that role
InSlot(k) == CASE k = "root" -> c.tm.root [] k = "timestamp" -> c.tm.ts [] k = "snapshot" -> c.tm.sn
               [] OTHER -> IF Has(c.tm.tg, k) THEN c.tm.tg[k] ELSE None
StepCache == [][c'.pc # "off" => \A k \in DOMAIN c'.disk : (Has(c.disk, k) /\ c'.disk[k] = c.disk[k]) \/ c'.disk[k] = InSlot(k)']_vars
CacheKept == On => DOMAIN d0 \subseteq DOMAIN c.disk
\* and what was accepted from the network is there, between calls and while waiting
Stored == (On /\ c.pc \in {"idle", "req"}) =>
            \A k \in {"root", "targets", "a", "b"} : InSlot(k) # None => Has(c.disk, k) /\ c.disk[k] = InSlot(k)
\* C06: after a refresh that succeeded everything is there
Complete == (On /\ c.pc = "done" /\ c.err = {}) => c.tm.ts # None /\ c.tm.sn # None /\ Has(c.tm.tg, "targets")
                /\ ~Expired(c.tm.root, c.cfg.now) /\ ~Expired(c.tm.ts, c.cfg.now) /\ ~Expired(c.tm.sn, c.cfg.now)
\* C14
Bounded == On => n <= c.cfg.maxRot + 3 + c.cfg.maxDel + 1
\* C20
Local == (On /\ c.cfg.offline) => c.pc # "req"
\* C12, C13: the answer of a lookup
Found == (On /\ c.pc = "done" /\ c.err = {} /\ c.op.name = "info") =>
            /\ Has(c.tm.tg, c.res.role) /\ c.res.doc = c.tm.tg[c.res.role] /\ Has(PoolDoc(c.res.doc).tgts, c.op.path)
            /\ c.res.role # "targets" =>
                 \E q \in DOMAIN c.tm.tg : \E i \in DOMAIN PoolDoc(c.tm.tg[q]).droles :
                     LET dr == PoolDoc(c.tm.tg[q]).droles[i] IN dr.name = c.res.role /\ RoleCovers(dr, c.op.path)
\* C14: every call comes to an end
Ends == [](On /\ c.pc \in {"run", "req", "done"} => <>(c.pc \in {"idle", "off"}))

\* behaviours for the driver: one for every completed call of every state
Emit == Gen => (IF c.pc = "done" /\ c'.pc = "idle" THEN PrintT("GEN " \o ToJson(h)) ELSE TRUE)
\* the documents for the driver
Pool == [i \in Ids |-> [name |-> Table[i][1], doc |-> Table[i][2]]]
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> Pool])
=============================================================================
