---------------------------------- MODULE Pool ----------------------------------
(***************************************************************************)
(* A small world for model checking: the documents that exist.  Two good    *)
(* releases of one repository with key rotations, and for every role        *)
(* documents that are wrong in one way each (for the one who holds all keys *)
(* and for the one who holds none).  The driver can make the real documents *)
(* from these descriptions (family "replay").                               *)
(* Keys: e1 (later e5) root, e2 (later e6) timestamp, e3 snapshot, e4       *)
(* targets, e7 and e8 of the delegated roles a and b; e9 nobody's.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sg(k) == [kid |-> k, mat |-> k, ok |-> TRUE]
Torn(k) == [kid |-> k, mat |-> k, ok |-> FALSE]
Fake(k) == [kid |-> k, mat |-> "e9", ok |-> TRUE]
NoFn == [k \in {} |-> 0]
Base == [json |-> TRUE, typ |-> "", ver |-> 1, exp |-> 3, size |-> 0, sigs |-> <<>>, cs |-> FALSE, keys |-> NoFn, roles |-> NoFn,
         meta |-> NoFn, tgts |-> NoFn, dk |-> "none", dkeys |-> NoFn, droles |-> <<>>, bl |-> 0, pre |-> "", skids |-> <<>>, sthr |-> 0]

Role(kids, thr) == [kids |-> kids, thr |-> thr]
KeyMap(S) == [k \in S |-> k]
RootDoc(v, rk, rt, tk, cs, sigs) ==
    [Base EXCEPT !.typ = "root", !.ver = v, !.cs = cs, !.sigs = sigs, !.keys = KeyMap(({rk[i] : i \in DOMAIN rk}) \cup {tk, "e3", "e4"}),
                 !.roles = [root |-> Role(rk, rt), timestamp |-> Role(<<tk>>, 1), snapshot |-> Role(<<"e3">>, 1), targets |-> Role(<<"e4">>, 1)]]
Ent(v) == [ver |-> v, len |-> 0, hs |-> <<>>]
EntH(v, id) == [ver |-> v, len |-> 0, hs |-> <<[alg |-> "sha256", of |-> id]>>]
TsDoc(v, ent, sigs) == [Base EXCEPT !.typ = "timestamp", !.ver = v, !.meta = ("snapshot.json" :> ent), !.sigs = sigs]
SnDoc(v, m, sigs) == [Base EXCEPT !.typ = "snapshot", !.ver = v, !.meta = m, !.sigs = sigs]
Del(name, k, term, pats) == [name |-> name, kids |-> <<k>>, thr |-> 1, term |-> term, paths |-> pats, prefixes |-> <<>>]
\* code points: 42 is "*", 120 "x", 121 "y"
Star == <<<<42>>>>
X == <<<<120>>>>
Ti == [len |-> 1, hs |-> <<[alg |-> "sha256", of |-> -1]>>]
TgDoc(v, t, drs, sigs) ==
    [Base EXCEPT !.typ = "targets", !.ver = v, !.tgts = [p \in t |-> Ti], !.sigs = sigs,
                 !.dk = IF drs = <<>> THEN "none" ELSE "roles", !.droles = drs, !.dkeys = IF drs = <<>> THEN NoFn ELSE KeyMap({"e7", "e8"})]
Expire(d) == [d EXCEPT !.exp = -2]
Soon(d) == [d EXCEPT !.exp = 1]     \* expires between two sessions of the model
Junk == [Base EXCEPT !.json = FALSE, !.typ = "junk"]

G1 == TgDoc(1, {"y"}, <<Del("a", "e7", FALSE, <<Star>>)>>, <<Sg("e4")>>)
G2 == TgDoc(2, {}, <<Del("a", "e7", FALSE, <<X>>), Del("b", "e8", TRUE, <<Star>>)>>, <<Sg("e4")>>)
A1 == TgDoc(1, {}, <<Del("b", "e8", FALSE, <<Star>>), Del("a", "e7", FALSE, <<Star>>)>>, <<Sg("e7")>>)
B1 == TgDoc(1, {"x"}, <<Del("a", "e7", FALSE, <<Star>>)>>, <<Sg("e8")>>)
M1 == [k \in {"targets.json", "a.json"} |-> Ent(1)]
\* the positions of two documents whose hashes are listed
idS2 == 18
idA1 == 27
M2 == ("targets.json" :> Ent(2)) @@ ("a.json" :> EntH(1, idA1)) @@ ("b.json" :> Ent(1))

\* name -> document; ids are the positions in Names
Table ==
    << <<"R1",   RootDoc(1, <<"e1", "e0">>, 1, "e2", FALSE, <<Sg("e1")>>)>>,
       <<"R2",   RootDoc(2, <<"e5", "e1">>, 2, "e6", TRUE, <<Sg("e1"), Sg("e5")>>)>>,
       <<"R2new",  RootDoc(2, <<"e5", "e1">>, 1, "e9", TRUE, <<Sg("e5")>>)>>,      \* not signed as the old root demands
       <<"R2old",  RootDoc(2, <<"e5", "e1">>, 1, "e9", TRUE, <<Sg("e0")>>)>>,      \* not signed as it demands itself
       <<"R3",   RootDoc(3, <<"e5">>, 1, "e6", TRUE, <<Sg("e5"), Sg("e1")>>)>>,
       <<"R3exp",  Expire(RootDoc(3, <<"e5">>, 1, "e6", TRUE, <<Sg("e5"), Sg("e1")>>))>>,
       <<"R4",   RootDoc(4, <<"e5">>, 1, "e2", FALSE, <<Sg("e5")>>)>>,
       <<"T1",   TsDoc(1, Ent(1), <<Sg("e2")>>)>>,
       <<"T2",   TsDoc(2, Ent(2), <<Sg("e2")>>)>>,
       <<"T2n",  TsDoc(2, EntH(2, idS2), <<Sg("e6")>>)>>,                                \* by the rotated key
       <<"T2b",  TsDoc(2, Ent(1), <<Sg("e2"), Sg("e6")>>)>>,                      \* same version, other content
       <<"T3back", TsDoc(3, Ent(1), <<Sg("e2"), Sg("e6")>>)>>,                    \* lists an older snapshot
       <<"T3exp",  Expire(TsDoc(3, Ent(2), <<Sg("e2"), Sg("e6")>>))>>,
       <<"T2soon", Soon(TsDoc(2, Ent(2), <<Sg("e2")>>))>>,
       <<"Tfake",  TsDoc(4, Ent(2), <<Fake("e2"), Fake("e6"), Torn("e2")>>)>>,
       <<"Tnone",  [Base EXCEPT !.typ = "timestamp", !.ver = 4, !.meta = ("x.json" :> Ent(1)), !.sigs = <<Sg("e2")>>]>>,
       <<"S1",   SnDoc(1, M1, <<Sg("e3")>>)>>,
       <<"S2",   SnDoc(2, M2, <<Sg("e3")>>)>>,
       <<"S2miss", SnDoc(2, [k \in {"targets.json", "b.json"} |-> IF k = "b.json" THEN Ent(1) ELSE Ent(2)], <<Sg("e3")>>)>>,
       <<"S2back", SnDoc(2, ("targets.json" :> Ent(0)) @@ ("a.json" :> Ent(1)), <<Sg("e3")>>)>>,
       <<"S2exp",  Expire(SnDoc(2, M2, <<Sg("e3")>>))>>,
       <<"Sfake",  SnDoc(2, M2, <<Torn("e3")>>)>>,
       <<"G1", G1>>, <<"G2", G2>>,
       <<"G2exp", Expire(G2)>>,
       <<"Gfake", [G2 EXCEPT !.sigs = <<Sg("e9"), Sg("e2"), Sg("e6")>>]>>,
       <<"A1", A1>>,
       <<"Afake", [A1 EXCEPT !.sigs = <<Sg("e8"), Sg("e4")>>]>>,
       <<"B1", B1>>,
       <<"junk", Junk>> >>
Ids == DOMAIN Table
\* a length L listed for a file stands for the real size of document L \div 100, plus L % 100 - 10
SizeOf(id) == 100 * id + 10
Sized(d, id) == [d EXCEPT !.size = SizeOf(id)]
PoolDoc(id) == IF id \in Ids THEN Sized(Table[id][2], id) ELSE Junk
Id(name) == CHOOSE i \in Ids : Table[i][1] = name
ASSUME Id("S2") = idS2 /\ Id("A1") = idA1
PoolPath(p) == [segs |-> <<IF p = "x" THEN <<120>> ELSE <<121>>>>, hash |-> <<>>, b64 |-> <<>>, h4 |-> <<0, 0, 0, 0>>]
=============================================================================
