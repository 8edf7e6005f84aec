------------------------------- MODULE TraceCodec -------------------------------
(***************************************************************************)
(* Checks recorded readings and writings of documents against Format.tla.   *)
(*   read  [as, json, odd, in, errs, werr, same, again, sigok]              *)
(* errs: for each way in whether there was an error; same: everything that  *)
(* was in the document is in what is written, and nothing else; again: the  *)
(* bytes are always the same, also after reading them; sigok: the signature *)
(* made before reading verifies.                                            *)
(***************************************************************************)
EXTENDS TraceCommon
VARIABLES s, l, cov
vars == <<s, l, cov>>
Evs == T.scens[s].ev
If(c, tag) == IF c THEN {tag} ELSE {}
NodeOf(i) == Evs[l].in[i]
F == INSTANCE Format WITH N <- NodeOf, Size <- Len(Evs[l].in)
Init == s \in 1..Len(T.scens) /\ l = 1 /\ cov = {}
Report(e, diffs, props, why) ==
    IF diffs = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, [k \in DOMAIN e \ {"in"} |-> e[k]]>>))
Read(e) ==
    LET bad == ~e.json \/ (~e.odd /\ F!Malformed(e.as)) \/ (e.odd /\ e.json /\ FALSE)
        good == e.json /\ ~e.odd /\ F!Correct(e.as)
        some == \E k \in DOMAIN e.errs : e.errs[k]
        all == \A k \in DOMAIN e.errs : e.errs[k]
        diffs == If(bad /\ ~all, "read.accepted") \cup If(good /\ some, "read.refused") \cup If(some # all, "read.differs")
                 \cup If(good /\ ~some /\ (e.werr \/ ~e.same), "write.changed")
                 \cup If(good /\ ~some /\ ~e.werr /\ ~e.again, "write.unstable")
                 \cup If(good /\ ~some /\ e.how = "correct" /\ ~e.sigok, "signature.lost")
        props == If("read.accepted" \in diffs, "C27") \cup If("read.refused" \in diffs, "C11") \cup If("read.refused" \in diffs, "C26")
                 \cup If("read.differs" \in diffs, "C27")
                 \cup If(diffs \cap {"write.changed", "write.unstable", "signature.lost"} # {}, "C26") \cup If("signature.lost" \in diffs, "C11") IN
    /\ Assert(~(bad /\ good), <<"Format.tla contradicts itself", T.scens[s].n, l>>)
    /\ Report(e, diffs, props, <<IF bad THEN "malformed" ELSE IF good THEN "correct" ELSE "open">>)
    /\ cov' = cov \cup {e.as \o ":" \o e.how \o ":" \o (IF bad THEN "malformed" ELSE IF good THEN "correct" ELSE IF some THEN "open.refused" ELSE "open.accepted")}
Built(e) ==
    /\ Report(e, If(e.err, "built.refused") \cup If(~e.err /\ ~e.same, "built.changed") \cup If(~e.err /\ ~e.sigok, "signature.lost"), {"C26", "C11"} \cup If(~e.err /\ ~e.sigok, "C25"), <<>>)
    /\ cov' = cov \cup {"built"}
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "read" -> Read(e)
         [] e.e = "built" -> Built(e)
         [] e.e = "harness" -> Report(e, {"no key"}, {"C24", "C25"}, <<>>) /\ UNCHANGED cov
         [] e.e \in {"panic", "hang"} -> Report(e, {e.e}, {"C27"}, <<>>) /\ UNCHANGED cov
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
