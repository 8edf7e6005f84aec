--------------------------------- MODULE Store ---------------------------------
(***************************************************************************)
(* The files of the cache directory, one step of the file system at a time. *)
(* A file is in one of the states                                           *)
(*   "done"    its content is complete (no writer has it open)              *)
(*   "partial" something has been written that need not be everything       *)
(* A step is [op, name, final]: create, modify, close (after writing),      *)
(* delete, from and to (the two halves of a renaming, which is atomic);     *)
(* final: the name is that of a metadata file, others are temporary.        *)
(*                                                                          *)
(* If the process stops after any step, what is in the directory stays      *)
(* there: so at every moment every file of a final name must have its       *)
(* complete old or its complete new content, and it must not vanish.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Store0 == [files |-> <<>>, moving |-> "", torn |-> {}]
StateOf(st, n) == IF n \in DOMAIN st.files THEN st.files[n] ELSE "done"
Drop(f, n) == [k \in DOMAIN f \ {n} |-> f[k]]
\* one step; torn: the final names that a crash would leave without complete content
StoreStep(st, e) ==
    LET set(v) == [st EXCEPT !.files = (e.name :> v) @@ @]
        hurt(s2) == IF e.final THEN [s2 EXCEPT !.torn = @ \cup {e.name}] ELSE s2 IN
    CASE e.op = "create" -> set("partial")
      [] e.op = "modify" -> hurt(set("partial"))
      [] e.op = "close"  -> hurt(set("done"))
      [] e.op = "delete" -> hurt([st EXCEPT !.files = Drop(@, e.name)])
      [] e.op = "from"   -> hurt([st EXCEPT !.files = Drop(@, e.name), !.moving = StateOf(st, e.name)])
      [] e.op = "to"     ->
            LET s2 == [st EXCEPT !.files = (e.name :> "done") @@ @, !.moving = ""] IN
            IF st.moving = "partial" THEN hurt(s2) ELSE s2
RECURSIVE StoreRun(_, _)
StoreRun(st, es) == IF es = <<>> THEN st ELSE StoreRun(StoreStep(st, Head(es)), Tail(es))
=============================================================================
