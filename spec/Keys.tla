---------------------------------- MODULE Keys ----------------------------------
(***************************************************************************)
(* Keys of roles, signatures and what verification means.                   *)
(*   d      a delegator: [kind, roles, keys, bl, pre], roles: name ->       *)
(*          [kids (sequence), thr], keys: key id -> key ("" if unusable)    *)
(*   sigs   the signatures of a document: sequence of [kid, n], n the       *)
(*          signature itself                                                *)
(*   made   signature -> [key, over, pss]: who made it, over which content  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[i] : i \in DOMAIN q}
Has(f, k) == k \in DOMAIN f
NoRole == [kids |-> <<>>, thr |-> 0]

\* the name under which d keeps the keys of role, "" if it does not delegate to it
Slot(d, role, isbin) ==
    CASE d.kind = "succinct" -> IF isbin THEN "*" ELSE "?"
      [] OTHER -> IF Has(d.roles, role) THEN role ELSE "?"
Known(d, role, isbin) == Has(d.roles, Slot(d, role, isbin))
RoleOf(d, role, isbin) == d.roles[Slot(d, role, isbin)]

\* --- changing keys; with succinct delegation the role's name does not matter
Target(d, role) == IF d.kind = "succinct" THEN "*" ELSE role
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
CanAdd(d, role) == Has(d.roles, Target(d, role))
\* d2 may be the result of adding key under its id kid
Added(d, role, kid, key, d2) ==
    LET r == Target(d, role) IN
    /\ d2.keys = Put(d.keys, kid, key)
    /\ DOMAIN d2.roles = DOMAIN d.roles
    /\ \A o \in DOMAIN d.roles \ {r} : d2.roles[o] = d.roles[o]
    /\ d2.roles[r].thr = d.roles[r].thr
    /\ IF kid \in Range(d.roles[r].kids) THEN d2.roles[r].kids = d.roles[r].kids
       ELSE /\ Range(d2.roles[r].kids) = Range(d.roles[r].kids) \cup {kid}
            /\ Len(d2.roles[r].kids) = Len(d.roles[r].kids) + 1
CanRevoke(d, role, kid) == Has(d.roles, Target(d, role)) /\ kid \in Range(d.roles[Target(d, role)].kids)
Drop(q, kid) == SelectSeq(q, LAMBDA k : k # kid)
RevokeKey(d, role, kid) ==
    LET r == Target(d, role)
        rs == [d.roles EXCEPT ![r].kids = Drop(@, kid)]
        used == \E o \in DOMAIN rs : kid \in Range(rs[o].kids) IN
    [d EXCEPT !.roles = rs, !.keys = IF used THEN @ ELSE Without(@, kid)]
\* every key that is listed is there, and every key that is there is listed
Consistent(d) == DOMAIN d.keys = UNION {Range(d.roles[r].kids) : r \in DOMAIN d.roles}

\* --- signing
SignedBy(sigs, kid, n, sigs2) ==
    /\ \A i, j \in DOMAIN sigs2 : sigs2[i].kid = sigs2[j].kid => i = j
    /\ Range(sigs2) = {x \in Range(sigs) : x.kid # kid} \cup {[kid |-> kid, n |-> n]}

\* --- verifying; the last signature counts if there are several for a key id
SigFor(sigs, kid) ==
    LET is == {i \in DOMAIN sigs : sigs[i].kid = kid} IN
    IF is = {} THEN 0 ELSE sigs[CHOOSE i \in is : \A j \in is : j <= i].n
Valid(made, n, key, content, pss) == Has(made, n) /\ made[n].key = key /\ made[n].over = content /\ (made[n].pss => pss)
Counting(d, role, isbin, sigs, made, content, pss) ==
    LET r == RoleOf(d, role, isbin) IN
    {d.keys[k] : k \in {k \in Range(r.kids) : Has(d.keys, k) /\ d.keys[k] # "" /\ Valid(made, SigFor(sigs, k), d.keys[k], content, pss)}}
Verifies(d, role, isbin, sigs, made, content, pss) ==
    /\ Known(d, role, isbin) /\ RoleOf(d, role, isbin).kids # <<>> /\ RoleOf(d, role, isbin).thr >= 1
    /\ Cardinality(Counting(d, role, isbin, sigs, made, content, pss)) >= RoleOf(d, role, isbin).thr
\* all keys of the role can be used
Usable(d, role, isbin) == \A k \in Range(RoleOf(d, role, isbin).kids) : Has(d.keys, k) /\ d.keys[k] # ""
=============================================================================
