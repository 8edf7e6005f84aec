--------------------------------- MODULE MCShare ---------------------------------
(***************************************************************************)
(* C32: a client whose cache directory is used by others as well.  Whatever *)
(* they do, each of their steps replaces or removes one file; so at any     *)
(* moment any file may become any document, verified or not.  Nothing that  *)
(* the client trusts may depend on it.                                      *)
(***************************************************************************)
EXTENDS MCClient
CONSTANTS MaxEnv, AnyTime    \* others do something at most so often; at any step, or only while the client waits for an answer

VARIABLES ne, touched
vars2 == <<vars, ne, touched>>
Others ==
    /\ ne < MaxEnv /\ On /\ c.pc \in (IF AnyTime THEN {"run", "req", "idle"} ELSE {"req"})
    /\ \E role \in {"root", "timestamp", "snapshot", "targets", "a"} : \E id \in {0} \cup DocsOf(role) \cup {Id("junk")} :
          /\ c' = [c EXCEPT !.disk = IF id = 0 THEN [k \in DOMAIN @ \ {role} |-> @[k]] ELSE (role :> id) @@ @]
          /\ c'.disk # c.disk
          /\ d0' = [k \in DOMAIN d0 \ {role} |-> d0[k]]
          /\ h' = Append(h, [e |-> role, i |-> id])
          /\ touched' = touched \cup {role}
    /\ ne' = ne + 1 /\ UNCHANGED <<sess, calls, n>>
Init2 == Init /\ ne = 0 /\ touched = {}
Next2 == (Next /\ UNCHANGED <<ne, touched>>) \/ Others
Spec2 == Init2 /\ [][Next2]_vars2
View2 == <<View, ne, touched>>

\* the client writes only what it accepted, and others' files stay
Own == ne' = ne
StepCache2 == [][(Own /\ c'.pc # "off") => \A k \in DOMAIN c'.disk : (Has(c.disk, k) /\ c'.disk[k] = c.disk[k]) \/ c'.disk[k] = InSlot(k)']_vars2
StepKeep2 == [][Own => DOMAIN c.disk \subseteq DOMAIN c'.disk]_vars2
Stored2 == (On /\ c.pc \in {"idle", "req"}) =>
            \A k \in {"root", "targets", "a", "b"} \ touched : InSlot(k) # None => Has(c.disk, k) /\ c.disk[k] = InSlot(k)
StepRoot2 == [][Runs => RootStepOK(c.tm, c'.tm)]_vars2
StepMonotonic2 == [][Runs => MonotonicStep(c.tm, c'.tm)]_vars2
StepOrder2 == [][Runs => OrderStep(c.tm, c'.tm)]_vars2
StepDeleg2 == [][Runs => DelegStepOK(c.tm, c'.tm)]_vars2
\* others change nothing that is trusted
Apart2 == [][~Own => c'.tm = c.tm /\ c'.pc = c.pc]_vars2
Emit2 == (Gen /\ ne' > 0) => (IF c.pc = "done" /\ c'.pc = "idle" THEN PrintT("GEN " \o ToJson(h)) ELSE TRUE)
=============================================================================
