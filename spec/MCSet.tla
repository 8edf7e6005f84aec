--------------------------------- MODULE MCSet ---------------------------------
(***************************************************************************)
(* The trusted metadata set by itself (C01-C07, C30): every operation with  *)
(* every document of Pool.tla in every state that can be reached, in any    *)
(* order, with any parent, at different reference times.                    *)
(***************************************************************************)
EXTENDS Pool, Json, IOUtils
CONSTANTS Times, Gen

\* more documents, about thresholds, lengths, hashes, key ids and hash bins
B == Len(Table)
EntX(v, len, hs) == [ver |-> v, len |-> len, hs |-> hs]
H(alg, id) == [alg |-> alg, of |-> id]
iS3 == B + 9
iG3 == B + 16
iA3 == B + 17
iB3 == B + 20
iG4 == B + 23
iP0 == B + 24
RootLike(keys, rk, thr, tthr, sigs) ==
    [Base EXCEPT !.typ = "root", !.ver = 2, !.sigs = sigs, !.keys = keys,
                 !.roles = [root |-> Role(rk, thr), timestamp |-> Role(<<"e2", "e6">>, tthr), snapshot |-> Role(<<"e3">>, 1), targets |-> Role(<<"e4">>, 1)]]
K(S) == KeyMap(S \cup {"e2", "e3", "e4", "e6"})
Alias == ("e1~b" :> "e1") @@ K({"e1"})
DelT(name, kids, thr, term, pats) == [name |-> name, kids |-> kids, thr |-> thr, term |-> term, paths |-> pats, prefixes |-> <<>>]
TgX(v, drs, dkeys) == [Base EXCEPT !.typ = "targets", !.ver = v, !.sigs = <<Sg("e4")>>, !.dk = "roles", !.droles = drs, !.dkeys = dkeys, !.tgts = [p \in {"z"} |-> Ti]]
More ==
    << <<"R2dup", RootLike(K({"e1"}), <<"e1">>, 1, 1, <<Sg("e1"), Sg("e2"), Sg("e1")>>)>>,                \* B+1: two signatures with one key id
       <<"R2zero", RootLike(K({"e1"}), <<"e1">>, 1, 0, <<Sg("e1")>>)>>,                                  \* a threshold of zero
       <<"R2alias", RootLike(Alias, <<"e1", "e1~b">>, 2, 1, <<Sg("e1"), [kid |-> "e1~b", mat |-> "e1", ok |-> TRUE]>>)>>,
       <<"R2two", RootLike(K({"e1"}), <<"e1">>, 1, 2, <<Sg("e1")>>)>>,                                   \* two timestamp keys
       <<"T5one", TsDoc(5, EntX(3, SizeOf(iS3), <<H("sha256", iS3), H("sha512", iS3)>>), <<Sg("e2")>>)>>,
       <<"T5two", TsDoc(5, EntX(3, SizeOf(iS3), <<H("sha512", iS3)>>), <<Sg("e2"), Sg("e6")>>)>>,
       <<"T6len", TsDoc(6, EntX(3, SizeOf(iS3) + 1, <<H("sha256", iS3)>>), <<Sg("e2"), Sg("e6")>>)>>,
       <<"T7alg", TsDoc(7, EntX(3, 0, <<H("sha256", iS3), H("md5", iS3)>>), <<Sg("e2"), Sg("e6")>>)>>,
       <<"S3", SnDoc(3, [k \in {"targets.json", "a.json", "b.json"} |->                                   \* B+9
                  CASE k = "targets.json" -> EntX(3, SizeOf(iG3), <<H("sha512", iG3)>>) [] k = "a.json" -> EntX(1, SizeOf(iA3), <<>>)
                    [] k = "b.json" -> EntX(2, 0, <<H("sha256", iB3), H("sha512", iB3)>>)], <<Sg("e3")>>)>>,
       <<"S3low", SnDoc(3, [k \in {"targets.json", "a.json", "b.json"} |-> IF k = "targets.json" THEN Ent(4) ELSE Ent(0)], <<Sg("e3")>>)>>,
       <<"S4", SnDoc(4, [k \in {"targets.json", "a.json", "b.json", "p-0.json", "p-1.json", "p-2.json"} |-> IF k = "targets.json" THEN Ent(4) ELSE Ent(2)], <<Sg("e3")>>)>>,
       <<"T8", TsDoc(8, Ent(4), <<Sg("e2"), Sg("e6")>>)>>,
       <<"T8dup", TsDoc(8, Ent(4), <<Sg("e2"), Sg("e6"), Sg("e2")>>)>>,
       <<"T5fake", TsDoc(5, EntX(3, 0, <<>>), <<Sg("e2"), Fake("e6")>>)>>,
       <<"T5swap", TsDoc(5, EntX(3, 0, <<>>), <<[kid |-> "e2", mat |-> "e6", ok |-> TRUE], [kid |-> "e6", mat |-> "e2", ok |-> TRUE]>>)>>,
       <<"G3", TgX(3, <<DelT("a", <<"e7", "e8">>, 2, FALSE, <<X>>), DelT("b", <<"e8", "e8~b">>, 2, FALSE, <<X>>), DelT("a", <<"e9">>, 1, FALSE, <<X>>)>>,
                   ("e8~b" :> "e8") @@ KeyMap({"e7", "e8", "e9"}))>>,                                     \* B+16: a is listed twice
       <<"A3", [A1 EXCEPT !.sigs = <<Sg("e7"), Sg("e8")>>]>>,                                             \* B+17
       <<"A3one", [A1 EXCEPT !.sigs = <<Sg("e7"), Torn("e8")>>]>>,
       <<"A3other", [A1 EXCEPT !.sigs = <<Sg("e9")>>]>>,
       <<"B3", TgDoc(2, {"x"}, <<>>, <<Sg("e8"), [kid |-> "e8~b", mat |-> "e8", ok |-> TRUE]>>)>>,            \* B+20
       <<"B3old", TgDoc(1, {"x"}, <<>>, <<Sg("e8"), Sg("e7")>>)>>,
       <<"B4", TgDoc(2, {"x"}, <<>>, <<Sg("e8")>>)>>,
       <<"G4", [Base EXCEPT !.typ = "targets", !.ver = 4, !.sigs = <<Sg("e4")>>, !.dk = "succinct", !.dkeys = KeyMap({"e7", "e8"}), !.bl = 1, !.pre = "p",
                            !.skids = <<"e7", "e8">>, !.sthr = 1]>>,                                        \* B+23
       <<"P0", TgDoc(2, {"x"}, <<>>, <<Sg("e7")>>)>>,
       <<"P0exp", Expire(TgDoc(2, {"x"}, <<>>, <<Sg("e8")>>))>>,
       <<"P0nobody", TgDoc(2, {"x"}, <<>>, <<Sg("e4")>>)>> >>
BigTable == Table \o More
BigIds == DOMAIN BigTable
BigDoc(id) == IF id \in BigIds THEN Sized(BigTable[id][2], id) ELSE Junk
BigId(name) == CHOOSE i \in BigIds : BigTable[i][1] = name
ASSUME BigId("S3") = iS3 /\ BigId("G3") = iG3 /\ BigId("A3") = iA3 /\ BigId("B3") = iB3 /\ BigId("G4") = iG4 /\ BigId("P0") = iP0
INSTANCE TufRules WITH Doc <- BigDoc, PathInfo <- PoolPath

VARIABLES tm, now, h
vars == <<tm, now, h>>
View == <<tm, now>>

NameRole(name) == CASE SubSeq(name, 1, 1) = "R" -> "root" [] SubSeq(name, 1, 1) = "T" -> "timestamp"
                    [] SubSeq(name, 1, 1) = "S" -> "snapshot" [] SubSeq(name, 1, 1) \in {"G", "A", "B", "P"} -> "targets" [] OTHER -> "junk"
DocsOf(role) == {i \in BigIds : NameRole(BigTable[i][1]) = role} \cup {Id("junk"), IF role = "snapshot" THEN Id("T1") ELSE Id("S1")}
Pairs == {<<"targets", "root">>, <<"a", "targets">>, <<"b", "targets">>, <<"b", "a">>, <<"a", "b">>, <<"a", "a">>,
          <<"a", "nobody">>, <<"nobody", "targets">>, <<"a", "root">>, <<"targets", "a">>,
          <<"p-0", "targets">>, <<"p-1", "targets">>, <<"p-2", "targets">>, <<"b", "p-0">>}
Op(o, id, role, parent, trusted) == [o |-> o, i |-> id, r |-> role, p |-> parent, t |-> IF trusted THEN 1 ELSE 0]
Ops == {Op("root", i, "", "", FALSE) : i \in DocsOf("root")} \cup {Op("timestamp", i, "", "", FALSE) : i \in DocsOf("timestamp")}
       \cup {Op("snapshot", i, "", "", b) : i \in DocsOf("snapshot"), b \in BOOLEAN}
       \cup {Op("targets", i, p[1], p[2], FALSE) : i \in DocsOf("targets"), p \in Pairs}
Upd(t, op) ==
    CASE op.o = "root" -> UpdRoot(t, op.i)
      [] op.o = "timestamp" -> UpdTs(t, op.i, now)
      [] op.o = "snapshot" -> UpdSn(t, op.i, op.t = 1, now)
      [] op.o = "targets" -> UpdTg(t, op.i, op.r, op.p, now)

Init == /\ now \in Times
        /\ \E r \in {i \in DocsOf("root") : InitHard(i) = {}} : tm = NewSet(r) /\ h = <<[n |-> r, now |-> now]>>
Next == \E op \in Ops :
           LET u == Upd(tm, op) IN
           u.tm # tm /\ tm' = u.tm /\ h' = Append(h, op) /\ UNCHANGED now
Spec == Init /\ [][Next]_vars

Typed == TypedInv(tm)
Signed == SignedInv(tm)
Fresh == FreshInv(tm, now)
Consistent == ConsistentInv(tm)
Order == OrderInv(tm)
StepRoot == [][RootStepOK(tm, tm')]_vars
StepMonotonic == [][MonotonicStep(tm, tm')]_vars
StepOrder == [][OrderStep(tm, tm')]_vars
StepDeleg == [][DelegStepOK(tm, tm')]_vars
\* C07: one slot at a time
SlotOf(t, r) == CASE r = "root" -> t.root [] r = "timestamp" -> t.ts [] r = "snapshot" -> t.sn [] OTHER -> IF Has(t.tg, r) THEN t.tg[r] ELSE None
AllSlots(t) == {"root", "timestamp", "snapshot"} \cup DOMAIN t.tg
StepOne == [][Cardinality({r \in AllSlots(tm) \cup AllSlots(tm)' : SlotOf(tm, r) # SlotOf(tm', r)}) = 1]_vars
\* a refusal has a reason; an operation without one is accepted
Reasons == \A op \in Ops : LET u == Upd(tm, op) IN u.tm # tm => u.hard = {}

\* for the driver: what is refused in a state, one after the other; and every step
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o InOrder(S \ {x})
Refused == InOrder({op \in Ops : Upd(tm, op).tm = tm})
EmitRefused == Gen => PrintT("GEN " \o ToJson(h \o <<[z |-> Len(h)]>> \o Refused))
EmitStep == Gen => PrintT("GEN " \o ToJson(h'))
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> [i \in BigIds |-> [name |-> BigTable[i][1], doc |-> BigTable[i][2]]]])
=============================================================================
