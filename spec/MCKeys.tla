--------------------------------- MODULE MCKeys ---------------------------------
(***************************************************************************)
(* C24, C25, C01: a delegator with two roles whose keys are added and       *)
(* revoked in any order, and a document of role r1 that is signed, tampered *)
(* with and verified at every moment.                                       *)
(* key: who can sign; a key may have a second key id ("k1~").  The roles    *)
(* are listed one by one or are two bins of a succinct delegation.  With    *)
(* Gen the behaviours are written down for the driver.                      *)
(***************************************************************************)
EXTENDS Keys, Json, IOUtils
CONSTANTS MaxOps, MaxSigs, Thrs, Kinds, Gen

VARIABLES d, sigs, content, made, ops, last, h
vars == <<d, sigs, content, made, ops, last, h>>

Kids == {"k1", "k2", "k1~"}
KeyOf(kid) == IF kid = "k1~" THEN "k1" ELSE kid
RoleNames == {"r1", "r2"}
NoKeys == [k \in {} |-> ""]
Empty(t) == [kids |-> <<>>, thr |-> t]
Bin == d.kind = "succinct"
Init ==
    /\ \E k \in Kinds : \E t1, t2 \in Thrs :
          /\ k = "succinct" => t1 = t2
          /\ d = [kind |-> k, keys |-> NoKeys, bl |-> 1, pre |-> "r",
                  roles |-> IF k = "succinct" THEN [r \in {"*"} |-> Empty(t1)] ELSE [r1 |-> Empty(t1), r2 |-> Empty(t2)]]
          /\ h = <<[o |-> "n", r |-> k, k |-> "", i |-> 0, t |-> <<t1, t2>>]>>
    /\ sigs = <<>> /\ content = 0 /\ made = [x \in {} |-> 0] /\ ops = 0 /\ last = "init"
Did(o, r, k, i) == h' = Append(h, [o |-> o, r |-> r, k |-> k, i |-> i, t |-> <<>>])

\* every d2 that the rule allows
Lists == UNION {[1..k -> Kids] : k \in 0..3}
Results(role, kid) ==
    {d2 \in {[d EXCEPT !.keys = Put(d.keys, kid, KeyOf(kid)), !.roles[Target(d, role)].kids = q] : q \in Lists} : Added(d, role, kid, KeyOf(kid), d2)}
Add == \E r \in RoleNames, k \in Kids : \E d2 \in Results(r, k) :
             d' = d2 /\ last' = "add" /\ Did("add", r, k, 0) /\ UNCHANGED <<sigs, content, made>>
\* what cannot be revoked is refused
Revoke == \E r \in RoleNames, k \in Kids :
             /\ d' = IF CanRevoke(d, r, k) THEN RevokeKey(d, r, k) ELSE d
             /\ last' = "revoke" /\ Did("revoke", r, k, 0) /\ UNCHANGED <<sigs, content, made>>
\* sign the present content; signature number: how many were made
NewSig == Cardinality(DOMAIN made) + 1
SeqSet(S) == UNION {[1..k -> S] : k \in 0..3}
Sign == \E k \in Kids :
           /\ NewSig <= MaxSigs
           /\ made' = Put(made, NewSig, [key |-> KeyOf(k), over |-> content, pss |-> FALSE])
           /\ \E q \in SeqSet({sigs[i] : i \in DOMAIN sigs} \cup {[kid |-> k, n |-> NewSig]}) : SignedBy(sigs, k, NewSig, q) /\ sigs' = q
           /\ last' = "sign" /\ Did("sign", "", k, 0) /\ UNCHANGED <<d, content>>
Tamper == content' = 1 - content /\ last' = "tamper" /\ Did("tamper", "", "", 0) /\ UNCHANGED <<d, sigs, made>>
\* a signature is given to another key id
Relabel == \E i \in DOMAIN sigs, k \in Kids :
             /\ \A j \in DOMAIN sigs : sigs[j].kid # k
             /\ sigs' = [sigs EXCEPT ![i].kid = k] /\ last' = "relabel" /\ Did("relabel", sigs[i].kid, k, i) /\ UNCHANGED <<d, content, made>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Add \/ Revoke \/ Sign \/ Tamper \/ Relabel)
Spec == Init /\ [][Next]_vars

RoleFor(r) == RoleOf(d, r, Bin)
Ok(r) == Verifies(d, r, Bin, sigs, made, content, TRUE)
\* the keys that really signed what is there now
Signed == {made[sigs[i].n].key : i \in {i \in DOMAIN sigs : made[sigs[i].n].over = content}}
Allowed(r) == {KeyOf(k) : k \in Range(RoleFor(r).kids)}
\* C01: no document verifies that was not signed by enough different keys of the role
Sound == \A r \in RoleNames : Ok(r) => Cardinality(Signed \cap Allowed(r)) >= RoleFor(r).thr
\* C25: one signed with enough of them, each under its own key id, does
ByOwnId(r) == {k \in {"k1", "k2"} : k \in Range(RoleFor(r).kids) /\ \E i \in DOMAIN sigs : sigs[i].kid = k /\ made[sigs[i].n].key = k /\ made[sigs[i].n].over = content}
Complete == \A r \in RoleNames : Cardinality(ByOwnId(r)) >= RoleFor(r).thr => Ok(r)
\* C24
KeysUsed == Consistent(d)
Once == \A r \in DOMAIN d.roles : \A i, j \in DOMAIN d.roles[r].kids : d.roles[r].kids[i] = d.roles[r].kids[j] => i = j
OneSig == \A i, j \in DOMAIN sigs : sigs[i].kid = sigs[j].kid => i = j
\* what is done for one role is nothing to the other one
Apart == [][last' \in {"add", "revoke"} /\ ~Bin =>
              \E r \in RoleNames : \A o \in RoleNames \ {r} : d'.roles[o] = d.roles[o] /\ (Ok(o) <=> Ok(o)')]_vars
\* adding never makes a document fail, revoking never makes one verify
Monotone == [][(last' = "add" => \A r \in RoleNames : Ok(r) => Ok(r)') /\ (last' = "revoke" => \A r \in RoleNames : Ok(r)' => Ok(r))]_vars
Thresholds == [][\A r \in DOMAIN d.roles : d'.roles[r].thr = d.roles[r].thr]_vars

\* the order of a list is left open: the operation is the same
View == IF Gen THEN <<d.kind, d.keys, [r \in DOMAIN d.roles |-> <<Range(d.roles[r].kids), d.roles[r].thr>>], Range(sigs), content, made, ops>> ELSE <<d, sigs, content, made, ops, last>>
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> <<>>])
Emit == (Gen /\ ops' = MaxOps) => PrintT("GEN " \o ToJson(h'))
=============================================================================
