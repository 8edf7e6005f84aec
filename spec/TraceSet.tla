-------------------------------- MODULE TraceSet --------------------------------
(***************************************************************************)
(* Checks recorded uses of the trusted metadata set (New, UpdateRoot,       *)
(* UpdateTimestamp, UpdateSnapshot, UpdateTargets, UpdateDelegatedTargets)  *)
(* against TufRules.tla.                                                    *)
(*   new  [id, now, err, tm]                                                *)
(*   op   [op, id, role, parent, trusted, now, err, cls, tm, out]           *)
(* cls: the error classes the returned error belongs to; out: the document  *)
(* the call returned.                                                       *)
(***************************************************************************)
EXTENDS TraceCommon
INSTANCE TufRules WITH Doc <- DocOf, PathInfo <- PathOf

VARIABLES s, l, m, p, live, cov
vars == <<s, l, m, p, live, cov>>
\* m: the specified set, p: the recorded one (they are the same while live)

Evs == T.scens[s].ev
Init == /\ s \in 1..Len(T.scens) /\ l = 1 /\ m = NewSet(None) /\ p = NewSet(None) /\ live = FALSE /\ cov = {}

SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
SameTm(a, b) == a.root = b.root /\ a.ts = b.ts /\ a.sn = b.sn /\ SameFn(a.tg, b.tg)
Slot(tm, r) ==
    CASE r = "root" -> tm.root [] r = "timestamp" -> tm.ts [] r = "snapshot" -> tm.sn
      [] OTHER -> IF Has(tm.tg, r) THEN tm.tg[r] ELSE None
Slots(a, b) == {"root", "timestamp", "snapshot"} \cup DOMAIN a.tg \cup DOMAIN b.tg

Apply(e) ==
    CASE e.op = "root" -> UpdRoot(m, e.id)
      [] e.op = "timestamp" -> UpdTs(m, e.id, e.now)
      [] e.op = "snapshot" -> UpdSn(m, e.id, e.trusted, e.now)
      [] e.op = "targets" -> UpdTg(m, e.id, e.role, e.parent, e.now)
RoleOf(e) == IF e.op = "targets" THEN e.role ELSE e.op

\* the class of error that reports reason w; {} if it is not fixed
Classes(w) ==
    CASE w \in {"sig", "selfsig"} -> {"repository", "unsigned"}
      [] w \in {"ver", "snapver", "snver"} -> {"repository", "version"}
      [] w = "equal" -> {"repository", "version", "equal"}
      [] w \in {"exp", "rootexp", "tsexp", "snexp"} -> {"repository", "expired"}
      [] w = "hash" -> {"repository", "mismatch"}
      [] w = "order" -> {"runtime"}
      [] w \in {"missing", "unlisted", "nosnap"} -> {"repository"}
      [] OTHER -> {}
ClassOK(ws, cls) ==
    \/ \E w \in ws : Classes(w) = {}
    \/ \E w \in ws : Range(cls) = Classes(w)

SetProps(o, now) ==
    IF ~TypedInv(o) THEN {"C01"} ELSE
      If(~SignedInv(o), "C01") \cup If(~FreshInv(o, now), "C04") \cup If(~ConsistentInv(o), "C05") \cup If(~OrderInv(o), "C06")
StepProps(o, n) ==
    IF ~TypedInv(o) \/ ~TypedInv(n) THEN {} ELSE
      If(~DelegStepOK(o, n), "C01") \cup If(~RootStepOK(o, n), "C02") \cup If(~MonotonicStep(o, n), "C03") \cup If(~OrderStep(o, n), "C06")

Report(e, why, diffs, props) ==
    IF diffs = {} /\ props = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, e>>))

DoNew(e) ==
    LET h == InitHard(e.id)
        diffs == If(h = {} /\ e.err, "new.refused") \cup If(h # {} /\ ~e.err, "new.accepted")
                 \cup If(~e.err /\ ~SameTm(e.tm, NewSet(e.id)), "new.other")
        props == (IF h = {} /\ e.err THEN {"C11"} ELSE {})
                 \cup (IF h # {} /\ ~e.err THEN Blame("root", h) ELSE {})
                 \cup If(h = {} /\ ~e.err /\ ~SameTm(e.tm, NewSet(e.id)), "C07") IN
    /\ Report(e, h, diffs, props)
    /\ m' = NewSet(e.id) /\ p' = e.tm
    /\ live' = (~e.err /\ diffs = {})
    /\ cov' = cov \cup {"new:" \o w : w \in h} \cup If(h = {}, "new:ok")
DoOp(e) ==
    LET u == Apply(e)
        role == RoleOf(e)
        ws == u.hard \cup u.soft
        changed == ~SameTm(e.tm, p)
        accepted == Slot(e.tm, role) = e.id /\ Slot(p, role) # e.id
        others == \E r \in Slots(e.tm, p) : r # role /\ Slot(e.tm, r) # Slot(p, r)
        diffs == If(~SameTm(e.tm, u.tm), "set") \cup If(e.err # (ws # {}), "result")
                 \cup If(e.err /\ ws # {} /\ ~ClassOK(ws, e.cls), "class")
                 \cup If(~e.err /\ e.out # e.id, "out") \cup If(e.err /\ e.out # None, "out")
        props == (IF u.hard # {} /\ (accepted \/ ~e.err) THEN Blame(role, u.hard) ELSE {})
                 \cup If(u.hard # {} /\ changed, "C07")
                 \cup If(others, "C07")
                 \cup (IF u.hard = {} /\ u.soft # {} /\ ~e.err THEN Blame(role, u.soft) \ {"C11"} ELSE {})
                 \cup If(ws = {} /\ e.err, "C11")
                 \cup If(u.hard = {} /\ Slot(e.tm, role) # e.id, IF u.soft = {} THEN "C11" ELSE "C03")
                 \cup If("class" \in diffs, "C30") \cup If("out" \in diffs, "C07")
                 \cup (IF "set" \in diffs THEN SetProps(e.tm, e.now) \cup StepProps(p, e.tm) ELSE {})
                 \* the properties themselves, on the recorded set
                 \cup SetProps(e.tm, e.now) \cup StepProps(p, e.tm) IN
    /\ Report(e, ws, diffs, props)
    /\ m' = u.tm /\ p' = e.tm
    /\ live' = SameTm(e.tm, u.tm)
    /\ cov' = cov \cup {role1 \o ":" \o w : role1 \in {IF role \in TopLevel THEN role ELSE "delegated"},
                                           w \in IF ws = {} THEN {"ok"} ELSE IF Cardinality(ws) = 1 THEN {w \o "!" : w \in ws} ELSE ws}
DoPanic(e) ==
    /\ PrintT("BAD " \o ToJson(<<T.scens[s].n, l, {e.e}, {"C27"}, {}, e>>))
    /\ live' = FALSE /\ UNCHANGED <<m, p, cov>>
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       IF e.e \in {"panic", "hang"} THEN DoPanic(e)
       ELSE IF e.e = "new" THEN DoNew(e)
       ELSE IF live THEN DoOp(e)
       ELSE UNCHANGED <<m, p, live, cov>>
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
