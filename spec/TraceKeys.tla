------------------------------- MODULE TraceKeys -------------------------------
(***************************************************************************)
(* Checks recorded lives of metadata objects (AddKey, RevokeKey, Sign,      *)
(* VerifyDelegate, ToBytes/FromBytes, tampering) against Keys.tla.          *)
(***************************************************************************)
EXTENDS TraceCommon
K == INSTANCE Keys
R == INSTANCE TufRules WITH Doc <- DocOf, PathInfo <- PathOf
VARIABLES s, l, d, x, v, self, made, cov
vars == <<s, l, d, x, v, self, made, cov>>
Evs == T.scens[s].ev
If(c, tag) == IF c THEN {tag} ELSE {}
Has(f, k) == k \in DOMAIN f
None0 == [kind |-> "none", roles |-> <<>>, keys |-> <<>>, bl |-> 0, pre |-> ""]
Init == s \in 1..Len(T.scens) /\ l = 1 /\ d = None0 /\ x = <<>> /\ v = 0 /\ self = FALSE /\ made = <<>> /\ cov = {}
Report(e, diffs, props, why) ==
    IF diffs = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, e>>))
\* what a signature of the document is made over
Content(vv, dd) == IF self THEN [v |-> vv, roles |-> dd.roles, keys |-> dd.keys] ELSE [v |-> vv]
SameD(a, b) == a.kind = b.kind /\ a.bl = b.bl /\ a.pre = b.pre
               /\ DOMAIN a.roles = DOMAIN b.roles /\ (\A r \in DOMAIN a.roles : a.roles[r] = b.roles[r])
               /\ DOMAIN a.keys = DOMAIN b.keys /\ (\A k \in DOMAIN a.keys : a.keys[k] = b.keys[k])
Adopt(e) == d' = e.d /\ x' = e.x /\ v' = e.v /\ self' = self
Kept(e) == If(~SameD(d, e.d), "delegator changed") \cup If(x # e.x, "signatures changed")
IsBin(role) == d.kind = "succinct" /\ R!IsBin(d.pre, d.bl, role)

Start(e) == d' = e.d /\ x' = e.x /\ v' = e.v /\ self' = e.self /\ UNCHANGED made /\ cov' = cov \cup {"start:" \o e.d.kind}
Add(e) ==
    LET ok == K!CanAdd(d, e.role)
        diffs == If(ok /\ e.err, "add.refused") \cup If(~ok /\ ~e.err, "add.accepted")
                 \cup If(~e.err /\ ok /\ ~K!Added(d, e.role, e.kid, e.key, e.d), "add.wrong")
                 \cup If((e.err \/ ~ok) /\ ~SameD(d, e.d), "add.changed") \cup If(x # e.x, "signatures changed") IN
    /\ Report(e, diffs, {"C24"}, <<d>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"add:" \o (IF ~ok THEN "unknown" ELSE IF e.kid \in K!Range(d.roles[K!Target(d, e.role)].kids) THEN "again" ELSE "new")}
Revoke(e) ==
    LET ok == K!CanRevoke(d, e.role, e.kid)
        want == IF ok THEN K!RevokeKey(d, e.role, e.kid) ELSE d
        diffs == If(ok /\ e.err, "revoke.refused") \cup If(~ok /\ ~e.err, "revoke.accepted")
                 \cup If(~SameD(want, e.d), "revoke.wrong") \cup If(x # e.x, "signatures changed") IN
    /\ Report(e, diffs, {"C24"}, <<d>>)
    /\ Adopt(e) /\ UNCHANGED made
    /\ cov' = cov \cup {"revoke:" \o (IF ~ok THEN "unknown" ELSE IF Has(want.keys, e.kid) THEN "shared" ELSE "last")}
Sign(e) ==
    LET c == Content(v, d)
        diffs == If(e.err, "sign.refused") \cup If(~e.err /\ ~K!SignedBy(x, e.kid, e.sig, e.x), "sign.wrong")
                 \cup If(~e.err /\ (e.ret # e.kid \/ e.sig < 1), "sign.returned")
                 \cup If(~e.err /\ Has(made, e.sig) /\ made[e.sig] # [key |-> e.key, over |-> c, pss |-> e.pss], "sign.over") 
                 \cup If(~SameD(d, e.d), "delegator changed") IN
    /\ Report(e, diffs, {"C25"}, <<x>>)
    /\ Adopt(e)
    /\ made' = IF e.err THEN made ELSE K!Put(made, e.sig, [key |-> e.key, over |-> c, pss |-> e.pss])
    /\ cov' = cov \cup {IF \E i \in DOMAIN x : x[i].kid = e.kid THEN "sign:again" ELSE "sign:new"} \cup If(self, "sign:self")
Verify(e) ==
    LET b == IsBin(e.role)
        c == Content(v, d)
        known == K!Known(d, e.role, b)
        full == K!Verifies(d, e.role, b, x, made, c, TRUE)
        part == K!Verifies(d, e.role, b, x, made, c, FALSE)
        free == known /\ ~K!Usable(d, e.role, b)
        diffs == If(full /\ e.err /\ ~free, "verify.refused") \cup If(~full /\ ~e.err, "verify.accepted")
                 \cup If(known /\ ~full /\ ~free /\ e.err /\ K!RoleOf(d, e.role, b).kids # <<>> /\ "unsigned" \notin {e.cls[i] : i \in DOMAIN e.cls}, "verify.class")
                 \cup Kept(e)
        pss == full /\ ~part /\ diffs = {"verify.refused"} IN
    /\ IF pss THEN PrintT("KNOWN " \o ToJson(<<T.scens[s].n, l, "C25", "rsa-pss-signatures", e.role>>))
       ELSE Report(e, diffs, {"C25"} \cup If("verify.accepted" \in diffs, "C01") \cup If("verify.class" \in diffs, "C30"), <<x, [role |-> IF known THEN K!RoleOf(d, e.role, b) ELSE K!NoRole]>>)
    /\ Adopt(e) /\ UNCHANGED made
    /\ cov' = cov \cup {"verify:" \o (IF ~known THEN "unknown" ELSE IF free THEN "badkeys" ELSE IF full THEN "ok" ELSE "unsigned")}
Rewrite(e) ==
    LET dups == \E i, j \in DOMAIN x : i # j /\ x[i].kid = x[j].kid
        diffs == If(e.err, "rewrite.refused") \cup Kept(e) IN
    /\ Report(e, diffs, {"C25", "C26"}, <<x>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"rewrite"}
Tamper(e) ==
    LET diffs == If(x # e.x, "signatures changed") \cup If(~SameD(d, e.d), "delegator changed") IN
    /\ Report(e, diffs, {"C26"}, <<x>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"tamper:" \o ToString(e.err)}
Restore(e) ==
    /\ Report(e, If(e.err, "restore.refused") \cup Kept(e), {"C26", "C25"}, <<x>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"restore"}
Edit(e) ==
    /\ Report(e, If(e.e = "sigs" /\ ~SameD(d, e.d), "delegator changed") \cup If(e.e = "keys" /\ x # e.x, "signatures changed"), {"C24"}, <<>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {e.e \o ":" \o e.how}
Clear(e) ==
    /\ Report(e, If(e.x # <<>>, "clear.wrong") \cup If(~SameD(d, e.d), "delegator changed"), {"C25"}, <<>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"clear"}
\* a key that is none, or a signer that fails: an error, and nothing changes
BadSign(e) ==
    /\ Report(e, If(~e.err, "badkey.accepted") \cup Kept(e), {"C25"}, <<x>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"badsign:" \o e.how}
Wrong(e) ==
    /\ Report(e, If(~e.err, "wrong.accepted") \cup If(e.err /\ ~e.type, "wrong.class") \cup Kept(e), {"C25", "C01"}, <<>>)
    /\ Adopt(e) /\ UNCHANGED made /\ cov' = cov \cup {"wrong"}
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "start" -> Start(e)
         [] e.e = "add" -> Add(e)
         [] e.e = "revoke" -> Revoke(e)
         [] e.e = "sign" -> Sign(e)
         [] e.e = "verify" -> Verify(e)
         [] e.e = "rewrite" -> Rewrite(e)
         [] e.e = "tamper" -> Tamper(e)
         [] e.e = "restore" -> Restore(e)
         [] e.e \in {"sigs", "keys"} -> Edit(e)
         [] e.e = "clear" -> Clear(e)
         [] e.e = "wrong" -> Wrong(e)
         [] e.e = "badsign" -> BadSign(e)
         [] e.e = "unreadable" -> Report(e, {"unreadable"}, {"C26", "C11"}, <<>>) /\ UNCHANGED <<d, x, v, self, made, cov>>
         [] e.e \in {"panic", "hang"} -> Report(e, {e.e}, {"C24", "C25", "C27"}, <<>>) /\ UNCHANGED <<d, x, v, self, made, cov>>
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
