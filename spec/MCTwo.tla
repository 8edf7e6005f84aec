---------------------------------- MODULE MCTwo ----------------------------------
(***************************************************************************)
(* C32: two clients of a correct repository use one cache directory at the  *)
(* same time.  They take turns in any way, one step each, may be killed at  *)
(* any step, and the second release comes at any moment.                    *)
(***************************************************************************)
EXTENDS Releases, Json, IOUtils
CONSTANTS Sessions, Coarse, Crashes, Gen    \* Coarse: they take turns only while waiting for an answer (what the driver can do)

Cl == {1, 2}
VARIABLES cl, disk, rel, sess, mid, h
vars == <<cl, disk, rel, sess, mid, h>>
\* cl: the clients without their view of the cache, which is disk; mid: the release came while this client was at work
View == <<cl, disk, rel, sess, mid>>

Seen(k) == [cl[k] EXCEPT !.disk = disk]
Init == /\ cl = [k \in Cl |-> Off(EmptyFn)] /\ rel = 1 /\ sess = [k \in Cl |-> 0] /\ mid = [k \in Cl |-> FALSE]
        /\ disk \in {EmptyFn, ("timestamp" :> Id("T1")) @@ ("snapshot" :> Id("S1")) @@ ("targets" :> Id("G1"))} /\ h = <<[d |-> disk]>>
To(k, c2) == cl' = [cl EXCEPT ![k] = [c2 EXCEPT !.disk = EmptyFn]] /\ disk' = c2.disk
\* the other one cannot be in the middle of a step
May(k) == ~Coarse \/ \A o \in Cl \ {k} : cl[o].pc # "run"
New(k) == /\ cl[k].pc = "off" /\ sess[k] < Sessions /\ May(k)
          /\ \E p \in {"", "x"} :
                /\ To(k, Call(NewClient(Id("R1"), disk, Cfg), p))
                /\ h' = h \o <<[k |-> k], [n |-> Id("R1"), c |-> <<Cfg.maxRot, Cfg.maxDel, 0>>], [p |-> p]>>
          /\ sess' = [sess EXCEPT ![k] = @ + 1] /\ mid' = [mid EXCEPT ![k] = FALSE] /\ UNCHANGED rel
Internal(k) == cl[k].pc = "run" /\ May(k) /\ To(k, Step(Seen(k))) /\ UNCHANGED <<rel, sess, mid, h>>
Reply(k) == /\ cl[k].pc = "req" /\ May(k)
            /\ LET r == Honest(rel, cl[k].req) IN To(k, Answer(Seen(k), r)) /\ h' = h \o <<[k |-> k], [a |-> r.k, i |-> r.id]>>
            /\ UNCHANGED <<rel, sess, mid>>
Leave(k) == /\ cl[k].pc = "done" /\ cl' = [cl EXCEPT ![k] = Off(EmptyFn)] /\ h' = h \o <<[k |-> k], [x |-> 1]>> /\ UNCHANGED <<disk, rel, sess, mid>>
Crash(k) == /\ Crashes /\ cl[k].pc \in (IF Coarse THEN {"req"} ELSE {"req", "run"}) /\ May(k)
            /\ cl' = [cl EXCEPT ![k] = Off(EmptyFn)] /\ h' = h \o <<[k |-> k], [x |-> 1]>> /\ UNCHANGED <<disk, rel, sess, mid>>
Publish == /\ rel = 1 /\ rel' = 2 /\ mid' = [k \in Cl |-> cl[k].pc # "off"] /\ (Coarse => \A k \in Cl : cl[k].pc # "run")
           /\ UNCHANGED <<cl, disk, sess, h>>
Next == Publish \/ \E k \in Cl : New(k) \/ Internal(k) \/ Reply(k) \/ Leave(k) \/ Crash(k)
Spec == Init /\ [][Next]_vars

On(k) == cl[k].pc # "off"
Done(k) == cl[k].pc = "done"
\* a client that is not overtaken by the release gets what it would get alone
Undisturbed == \A k \in Cl : (Done(k) /\ ~mid[k]) => LET f == FreshTable[rel][cl[k].op.path] IN cl[k].err = f.err /\ cl[k].res = f.res /\ cl[k].tm = f.tm
Sets == \A k \in Cl : On(k) => TypedInv(cl[k].tm) /\ SignedInv(cl[k].tm) /\ FreshInv(cl[k].tm, 0) /\ ConsistentInv(cl[k].tm) /\ OrderInv(cl[k].tm)
\* whatever they left behind, the next client is served
Recovers == \A r \in {x \in {1, 2} : x >= rel} : \A p \in {"", "x"} :
               LET a == Complete(Call(NewClient(Id("R1"), disk, Cfg), p), r) f == FreshTable[r][p] IN a.err = f.err /\ a.res = f.res /\ a.tm = f.tm
\* only what somebody verified is in the cache
Names == {"R1", "R2", "R3", "T1", "T2n", "S1", "S2", "G1", "G2", "A1", "B1"}
Verified == \A k \in DOMAIN disk : \E x \in Names : disk[k] = Id(x)
Emit == Gen => (IF (\A k \in Cl : cl'[k].pc = "off") /\ (\E k \in Cl : On(k)) /\ (\A k \in Cl : sess[k] > 0) THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE)
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> [i \in Ids |-> [name |-> Table[i][1], doc |-> Table[i][2]]]])
=============================================================================
