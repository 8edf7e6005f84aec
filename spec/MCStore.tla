--------------------------------- MODULE MCStore ---------------------------------
(***************************************************************************)
(* C09: replacing a cached file.  A writer replaces the file "f" by way of  *)
(* a temporary file, any step may fail, the process may stop at any step.   *)
(* Beside what Store.tla concludes from the steps, the model keeps what is  *)
(* really in the files.                                                     *)
(*   Writer = "rename"   the protocol                                       *)
(*   Writer = "any"      any sequence of steps: is Store.tla right?         *)
(***************************************************************************)
EXTENDS Store
CONSTANTS Writer, MaxSteps

VARIABLES st, real, pc, n, ever
vars == <<st, real, pc, n, ever>>
\* real: name -> content; "old", "new", "part"; a name that is not there: "none"
\* ever: the contents "f" has had at any moment
Names == {"f", "t"}
Final(nm) == nm = "f"
Do(op, nm, what) ==
    /\ st' = StoreStep(st, [op |-> op, name |-> nm, final |-> Final(nm)])
    /\ real' = [real EXCEPT ![nm] = what]
    /\ ever' = ever \cup {real'["f"]}
    /\ n' = n + 1
\* rename, as the two halves that are reported
Rename(a, b) ==
    /\ st' = StoreStep(StoreStep(st, [op |-> "from", name |-> a, final |-> Final(a)]), [op |-> "to", name |-> b, final |-> Final(b)])
    /\ real' = [real EXCEPT ![a] = "none", ![b] = real[a]]
    /\ ever' = ever \cup {real'["f"]}
    /\ n' = n + 1
Init == st = Store0 /\ real = [f |-> "old", t |-> "none"] /\ pc = "idle" /\ n = 0 /\ ever = {"old"}

\* --- the protocol; "failed": an error is on its way to the caller
Protocol ==
    \/ pc = "idle" /\ Do("create", "t", "part") /\ pc' = "open"
    \/ pc = "open" /\ Do("modify", "t", "part") /\ pc' = "open2"
    \/ pc = "open2" /\ Do("modify", "t", "new") /\ pc' = "written"
    \/ pc \in {"open", "open2"} /\ Do("close", "t", real["t"]) /\ pc' = "failed"         \* no space
    \/ pc = "written" /\ Do("close", "t", real["t"]) /\ pc' \in {"closed", "failed"}
    \/ pc = "closed" /\ Rename("t", "f") /\ pc' = "done"
    \/ pc = "closed" /\ pc' = "failed" /\ UNCHANGED <<st, real, n, ever>>                  \* the directory is gone
    \/ pc = "failed" /\ Do("delete", "t", "none") /\ pc' = "refused"
\* --- anything: a name is created, written in two parts, closed, renamed, deleted
AnyStep ==
    /\ n < MaxSteps /\ pc' = pc
    /\ \/ \E nm \in Names : real[nm] = "none" /\ Do("create", nm, "part")
       \/ \E nm \in Names : real[nm] # "none" /\ Do("modify", nm, "part")
       \/ \E nm \in Names : real[nm] = "part" /\ nm \in DOMAIN st.files /\ Do("modify", nm, "new")
       \/ \E nm \in Names : real[nm] = "new" /\ nm \in DOMAIN st.files /\ st.files[nm] = "partial" /\ Do("close", nm, "new")
       \/ \E nm \in Names : real[nm] # "none" /\ Do("delete", nm, "none")
       \/ \E a \in Names : real[a] # "none" /\ Rename(a, CHOOSE b \in Names : b # a)
Next == IF Writer = "rename" THEN Protocol ELSE AnyStep
Spec == Init /\ [][Next]_vars

\* the protocol is right: whenever it stops "f" is whole, and in the end nothing else is there
Atomic == Writer = "rename" => ever \subseteq {"old", "new"} /\ st.torn = {}
Clean == (Writer = "rename" /\ pc \in {"done", "refused"}) => real["t"] = "none"
Result == (Writer = "rename") => /\ (pc = "done" => real["f"] = "new") /\ (pc \in {"failed", "refused"} => real["f"] = "old")
\* Store.tla notices whenever "f" is not whole at some moment ("part" by creation alone is
\* noticed with the next write, or by the comparison of contents at the end)
Noticed == (ever \ {"old", "new"} # {} /\ real["f"] # "part") => st.torn # {}
=============================================================================
