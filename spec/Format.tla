--------------------------------- MODULE Format ---------------------------------
(***************************************************************************)
(* The format of metadata documents.  A JSON value is a tree of nodes:      *)
(*   N(i) = [k |-> kind, s |-> string, n |-> number, keys |-> names of the  *)
(*           members of an object, c |-> the children (members, elements)]  *)
(* kinds: obj arr str hex time int big float bool null                      *)
(* (hex: a string of an even number of hexadecimal digits; time: an RFC3339 *)
(* time; str: every other string; big, long: integers below 2^53 and 2^63   *)
(* that do not fit; float: all other numbers).                              *)
(* Three classes of documents: Correct ones must be read, Malformed ones    *)
(* must be refused, the others (missing or null scalars and the like) are   *)
(* left open.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N(_), Size

TopLevel == {"root", "timestamp", "snapshot", "targets"}
Strings == {"str", "hex", "time"}
Ints == {"int", "big", "long"}
IsObj(i) == i # 0 /\ N(i).k = "obj"
IsArr(i) == i # 0 /\ N(i).k = "arr"
\* member f of object i, 0 if there is none
Mem(i, f) ==
    IF ~IsObj(i) THEN 0
    ELSE LET js == {j \in DOMAIN N(i).keys : N(i).keys[j] = f} IN IF js = {} THEN 0 ELSE N(i).c[CHOOSE j \in js : TRUE]
Kids(i) == IF i = 0 THEN {} ELSE {N(i).c[j] : j \in DOMAIN N(i).c}
Is(i, ks) == i # 0 /\ N(i).k \in ks
\* present and neither null nor of one of the kinds
Not(i, ks) == i # 0 /\ N(i).k \notin ks \cup {"null"}
AnyNot(i, ks) == \E c \in Kids(i) : Not(c, ks)
AllAre(i, ks) == \A c \in Kids(i) : Is(c, ks)

\* --- what is refused
BadKeyids(i) == Not(i, {"arr"}) \/ (IsArr(i) /\ AnyNot(i, Strings))
BadThreshold(i) == Not(i, Ints) \/ (Is(i, {"int"}) /\ N(i).n < 1) \/ i = 0 \/ Is(i, {"null"})
BadHashes(i) == Not(i, {"obj"}) \/ (IsObj(i) /\ AnyNot(i, {"hex"}))
BadKey(i) ==
    \/ ~IsObj(i)
    \/ Not(Mem(i, "keytype"), Strings) \/ Not(Mem(i, "scheme"), Strings)
    \/ Not(Mem(i, "keyval"), {"obj"}) \/ Not(Mem(Mem(i, "keyval"), "public"), Strings)
BadKeys(i) == Not(i, {"obj"}) \/ (IsObj(i) /\ \E c \in Kids(i) : BadKey(c))
BadRole(i) == ~IsObj(i) \/ BadKeyids(Mem(i, "keyids")) \/ BadThreshold(Mem(i, "threshold"))
BadMetaFile(i) == ~IsObj(i) \/ Not(Mem(i, "version"), Ints) \/ Not(Mem(i, "length"), Ints) \/ BadHashes(Mem(i, "hashes"))
BadTarget(i) == ~IsObj(i) \/ Not(Mem(i, "length"), Ints) \/ BadHashes(Mem(i, "hashes"))
BadDelegatedRole(i) ==
    \/ Not(i, {"obj"})
    \/ IsObj(i) /\ \/ Mem(i, "name") = 0 \/ ~Is(Mem(i, "name"), Strings)
                   \/ N(Mem(i, "name")).s \in TopLevel \cup {""}
                   \/ BadKeyids(Mem(i, "keyids")) \/ BadThreshold(Mem(i, "threshold"))
                   \/ Not(Mem(i, "terminating"), {"bool"})
                   \/ BadKeyids(Mem(i, "paths")) \/ BadKeyids(Mem(i, "path_hash_prefixes"))
BadSuccinct(i) ==
    \/ Not(i, {"obj"})
    \/ IsObj(i) /\ \/ BadKeyids(Mem(i, "keyids")) \/ BadThreshold(Mem(i, "threshold"))
                   \/ Not(Mem(i, "name_prefix"), Strings)
                   \/ ~Is(Mem(i, "bit_length"), {"int"})
                   \/ N(Mem(i, "bit_length")).n \notin 1..32
BadDelegations(i) ==
    \/ Not(i, {"obj"})
    \/ IsObj(i) /\ \/ BadKeys(Mem(i, "keys"))
                   \/ Not(Mem(i, "roles"), {"arr"})
                   \/ (IsArr(Mem(i, "roles")) /\ \E c \in Kids(Mem(i, "roles")) : BadDelegatedRole(c))
                   \/ BadSuccinct(Mem(i, "succinct_roles"))
BadHeader(i) ==
    \/ Not(Mem(i, "version"), Ints) \/ Not(Mem(i, "spec_version"), Strings) \/ Not(Mem(i, "expires"), {"time"})
BadSigned(i, t) ==
    \/ ~IsObj(i)
    \/ ~Is(Mem(i, "_type"), Strings) \/ N(Mem(i, "_type")).s # t
    \/ BadHeader(i)
    \/ CASE t = "root" -> \/ Not(Mem(i, "consistent_snapshot"), {"bool"}) \/ BadKeys(Mem(i, "keys"))
                          \/ Not(Mem(i, "roles"), {"obj"}) \/ (IsObj(Mem(i, "roles")) /\ \E c \in Kids(Mem(i, "roles")) : BadRole(c))
         [] t \in {"timestamp", "snapshot"} -> Not(Mem(i, "meta"), {"obj"}) \/ (IsObj(Mem(i, "meta")) /\ \E c \in Kids(Mem(i, "meta")) : BadMetaFile(c))
         [] t = "targets" -> \/ Not(Mem(i, "targets"), {"obj"}) \/ (IsObj(Mem(i, "targets")) /\ \E c \in Kids(Mem(i, "targets")) : BadTarget(c))
                             \/ BadDelegations(Mem(i, "delegations"))
BadSignature(i) == Not(i, {"obj"}) \/ Not(Mem(i, "keyid"), Strings) \/ Not(Mem(i, "sig"), {"hex"})
BadSignatures(i) ==
    \/ Not(i, {"arr"})
    \/ IsArr(i) /\ \/ \E c \in Kids(i) : BadSignature(c)
                   \/ \E a, b \in DOMAIN N(i).c : a < b /\ Is(Mem(N(i).c[a], "keyid"), Strings) /\ Is(Mem(N(i).c[b], "keyid"), Strings)
                                                   /\ N(Mem(N(i).c[a], "keyid")).s = N(Mem(N(i).c[b], "keyid")).s
Malformed(t) == ~IsObj(1) \/ BadSigned(Mem(1, "signed"), t) \/ BadSignatures(Mem(1, "signatures"))

\* --- what is read: everything there and of the right kind
GoodKeyids(i) == IsArr(i) /\ AllAre(i, Strings)
GoodHashes(i) == IsObj(i) /\ AllAre(i, {"hex"})
GoodKey(i) == IsObj(i) /\ Is(Mem(i, "keytype"), Strings) /\ Is(Mem(i, "scheme"), Strings) /\ Is(Mem(Mem(i, "keyval"), "public"), Strings)
GoodKeys(i) == IsObj(i) /\ \A c \in Kids(i) : GoodKey(c)
GoodThreshold(i) == Is(i, {"int"}) /\ N(i).n >= 1
GoodRole(i) == IsObj(i) /\ GoodKeyids(Mem(i, "keyids")) /\ GoodThreshold(Mem(i, "threshold"))
Positive(i) == Is(i, {"int"}) /\ N(i).n >= 1
Natural(i) == Is(i, {"int"}) /\ N(i).n >= 0
GoodMetaFile(i) ==
    IsObj(i) /\ Positive(Mem(i, "version")) /\ (Mem(i, "length") # 0 => Positive(Mem(i, "length")))
    /\ (Mem(i, "hashes") # 0 => GoodHashes(Mem(i, "hashes")) /\ Kids(Mem(i, "hashes")) # {})
GoodTarget(i) == IsObj(i) /\ Natural(Mem(i, "length")) /\ GoodHashes(Mem(i, "hashes")) /\ ~Is(Mem(i, "custom"), {"null"})
GoodDelegatedRole(i) ==
    /\ IsObj(i) /\ Is(Mem(i, "name"), Strings) /\ N(Mem(i, "name")).s \notin TopLevel \cup {""}
    /\ GoodKeyids(Mem(i, "keyids")) /\ GoodThreshold(Mem(i, "threshold")) /\ Is(Mem(i, "terminating"), {"bool"})
    /\ \/ GoodKeyids(Mem(i, "paths")) /\ Mem(i, "path_hash_prefixes") = 0
       \/ GoodKeyids(Mem(i, "path_hash_prefixes")) /\ Mem(i, "paths") = 0
GoodSuccinct(i) ==
    IsObj(i) /\ GoodKeyids(Mem(i, "keyids")) /\ GoodThreshold(Mem(i, "threshold")) /\ Is(Mem(i, "name_prefix"), Strings)
    /\ Is(Mem(i, "bit_length"), {"int"}) /\ N(Mem(i, "bit_length")).n \in 1..32
GoodDelegations(i) ==
    /\ IsObj(i) /\ GoodKeys(Mem(i, "keys"))
    /\ \/ IsArr(Mem(i, "roles")) /\ (\A c \in Kids(Mem(i, "roles")) : GoodDelegatedRole(c)) /\ Mem(i, "succinct_roles") = 0
       \/ GoodSuccinct(Mem(i, "succinct_roles")) /\ Mem(i, "roles") = 0
GoodSigned(i, t) ==
    /\ IsObj(i) /\ Is(Mem(i, "_type"), Strings) /\ N(Mem(i, "_type")).s = t
    /\ Positive(Mem(i, "version")) /\ Is(Mem(i, "spec_version"), Strings) /\ Is(Mem(i, "expires"), {"time"})
    /\ CASE t = "root" -> Is(Mem(i, "consistent_snapshot"), {"bool"}) /\ GoodKeys(Mem(i, "keys")) /\ IsObj(Mem(i, "roles"))
                          /\ \A c \in Kids(Mem(i, "roles")) : GoodRole(c)
         [] t \in {"timestamp", "snapshot"} -> IsObj(Mem(i, "meta")) /\ \A c \in Kids(Mem(i, "meta")) : GoodMetaFile(c)
         [] t = "targets" -> /\ IsObj(Mem(i, "targets")) /\ (\A c \in Kids(Mem(i, "targets")) : GoodTarget(c))
                             /\ Mem(i, "delegations") # 0 => GoodDelegations(Mem(i, "delegations"))
GoodSignature(i) == IsObj(i) /\ Is(Mem(i, "keyid"), Strings) /\ Is(Mem(i, "sig"), {"hex"})
Correct(t) ==
    \* numbers that JavaScript would not keep are left open
    /\ \A i \in 1..Size : N(i).k \notin {"float", "long"}
    /\ IsObj(1) /\ GoodSigned(Mem(1, "signed"), t)
    /\ IsArr(Mem(1, "signatures")) /\ (\A c \in Kids(Mem(1, "signatures")) : GoodSignature(c)) /\ ~BadSignatures(Mem(1, "signatures"))
=============================================================================
