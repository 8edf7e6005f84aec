------------------------------ MODULE TraceCommon ------------------------------
(***************************************************************************)
(* What the trace specifications share: the recorded documents and the      *)
(* properties a deviation from the specification is a violation of.         *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Integers, Sequences, FiniteSets

T == JsonDeserialize(IOEnv.TRACE)
Docs == T.docs
NoDoc == [json |-> FALSE, typ |-> "none", ver |-> 0, exp |-> 0, size |-> 0, sigs |-> <<>>]
DocOf(id) == IF id >= 1 THEN Docs[id] ELSE NoDoc
PathOf(p) == T.paths[p]

\* the property broken when a document of role is used although reason w speaks against it
ReasonProp(role, w) ==
    CASE w \in {"sig", "nodeleg", "badkey", "type", "parse"} -> IF role = "root" THEN {"C01", "C02"} ELSE {"C01"}
      [] w = "selfsig" -> {"C01", "C02"}
      [] w = "ver" -> CASE role = "root" -> {"C02"}
                        [] role \in {"timestamp", "snapshot"} -> {"C03"}
                        [] OTHER -> {"C05", "C03"}
      [] w \in {"equal", "snapver", "missing"} -> {"C03"}
      [] w \in {"exp", "rootexp", "tsexp", "snexp"} -> {"C04"}
      [] w \in {"hash", "snver", "unlisted", "nosnap"} -> {"C05"}
      [] w = "order" -> {"C06"}
      [] w = "fetch" -> IF role = "root" THEN {"C16"} ELSE {"C06"}
      [] w = "io" -> {"C08", "C09"}
      [] w \in {"offline", "nolocal"} -> {"C20"}
      [] w = "notfound" -> {"C12"}
      [] OTHER -> {"C06"}
Blame(role, ws) == UNION {ReasonProp(role, w) : w \in ws}
=============================================================================
