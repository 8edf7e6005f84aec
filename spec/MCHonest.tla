-------------------------------- MODULE MCHonest --------------------------------
(***************************************************************************)
(* A repository that does everything right (C10, C11, C18): it publishes    *)
(* two releases, with a new root, new timestamp keys and a change to        *)
(* consistent snapshots in between.  Clients are interrupted at any step,   *)
(* and begin with any damaged or stale cache.                               *)
(***************************************************************************)
EXTENDS Releases, Json, IOUtils
CONSTANTS Gen, Small, Mode      \* "cache": one session, any cache; "life": sessions, crashes, a new release

VARIABLES c, rel, sess, d0, asked, h
vars == <<c, rel, sess, d0, asked, h>>
View == <<c, rel, sess, d0, asked>>    \* h: the behaviour so far, for the driver

\* a cache: nothing, garbage, other roles' documents, what nobody signed, older releases,
\* but nothing newer that is correctly signed
Slots == [timestamp |-> {"T1", "T2", "T2n", "T2soon", "Tfake", "Tnone", "S1", "junk"},
          snapshot |-> {"S1", "S2", "S2exp", "Sfake", "T1", "junk"},
          targets |-> {"G1", "G2", "G2exp", "Gfake", "S2", "junk"},
          a |-> {"A1", "Afake", "B1", "junk"},
          b |-> {"B1", "A1", "junk"}]
Roots == {"R1", "R2", "R3"}
CacheOf(f) == [k \in {k \in DOMAIN f : f[k] # "none"} |-> Id(f[k])]
Caches == {CacheOf([timestamp |-> t, snapshot |-> s, targets |-> g, a |-> a, b |-> b]) :
              t \in Slots.timestamp \cup {"none"}, s \in Slots.snapshot \cup {"none"}, g \in Slots.targets \cup {"none"},
              a \in Slots.a \cup {"none"}, b \in Slots.b \cup {"none"}}

Init == /\ sess = 0 /\ asked = {}
        /\ IF Mode = "cache" THEN rel = 2 /\ d0 \in Caches ELSE rel = 1 /\ d0 = EmptyFn
        /\ c = Off(d0) /\ h = <<[d |-> d0]>>
New == /\ c.pc = "off" /\ sess < 3 /\ (Mode = "cache" => sess = 0)
       /\ \E r \in IF Mode = "cache" /\ ~Small THEN Roots ELSE {"R1"} : \E p \in IF Small THEN {"x"} ELSE {"", "x", "y"} :
                /\ c' = Call(NewClient(Id(r), c.disk, Cfg), p)
                /\ h' = h \o <<[n |-> Id(r), c |-> <<Cfg.maxRot, Cfg.maxDel, 0>>], [p |-> p]>>
       /\ sess' = sess + 1 /\ asked' = {} /\ UNCHANGED <<rel, d0>>
Internal == c.pc = "run" /\ c' = Step(c) /\ UNCHANGED <<rel, sess, d0, asked, h>>
Reply == c.pc = "req" /\ c' = Answer(c, Honest(rel, c.req)) /\ asked' = asked \cup {c.req.role} /\ UNCHANGED <<rel, sess, d0>>
         /\ LET r == Honest(rel, c.req) IN h' = Append(h, [a |-> r.k, i |-> r.id])
Publish == Mode = "life" /\ rel = 1 /\ c.pc \in {"off", "done"} /\ rel' = 2 /\ c' = Off(c.disk) /\ UNCHANGED <<sess, d0, asked>>
           /\ h' = IF c.pc = "done" THEN Append(h, [x |-> 1]) ELSE h
Crash == Mode = "life" /\ c.pc # "off" /\ c' = Off(Remains(c)) /\ h' = Append(h, [x |-> 1]) /\ UNCHANGED <<rel, sess, d0, asked>>
Next == New \/ Internal \/ Reply \/ Publish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Reply)

Done == c.pc = "done"
\* C10: the cache makes no difference
Harmless == Done => LET f == FreshTable[rel][c.op.path] IN c.err = f.err /\ c.res = f.res /\ c.tm = f.tm
\* C11: what is published is found
Accepted == Done => CASE c.op.path = "" -> c.err = {}
                      [] rel = 2 /\ c.op.path = "x" -> c.err = {} /\ c.res = [role |-> "b", doc |-> Id("B1")]
                      [] rel = 1 /\ c.op.path = "y" -> c.err = {} /\ c.res = [role |-> "targets", doc |-> Id("G1")]
                      [] OTHER -> c.err # {}
\* and after the call the cache has all of it
Kept == Done => /\ c.disk["timestamp"] = c.tm.ts /\ c.disk["snapshot"] = c.tm.sn /\ c.disk["root"] = c.tm.root
                /\ \A k \in DOMAIN c.tm.tg : c.disk[k] = c.tm.tg[k]
\* C18: what is in the cache is not asked for
Reused == (Done /\ Mode = "cache") =>
             /\ (Has(d0, "snapshot") /\ d0["snapshot"] = c.tm.sn) => "snapshot" \notin asked
             /\ \A k \in DOMAIN c.tm.tg : (Has(d0, k) /\ d0[k] = c.tm.tg[k]) => k \notin asked
             /\ \A k \in DOMAIN c.tm.tg : ~(Has(d0, k) /\ d0[k] = c.tm.tg[k]) => k \in asked
\* every call ends
Ends == (c.pc \in {"run", "req"}) ~> (c.pc \in {"done", "off"})
\* the behaviours, for the driver
Emit == (Gen /\ Done) => PrintT("GEN " \o ToJson(h))
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> [i \in Ids |-> [name |-> Table[i][1], doc |-> Table[i][2]]]])
=============================================================================
