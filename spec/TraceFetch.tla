------------------------------- MODULE TraceFetch -------------------------------
(***************************************************************************)
(* Checks recorded downloads of the default fetcher against Fetch.tla.      *)
(***************************************************************************)
EXTENDS TraceCommon
F == INSTANCE Fetch
VARIABLES s, l, cov
vars == <<s, l, cov>>
Evs == T.scens[s].ev
Range(q) == {q[i] : i \in DOMAIN q}
If(c, tag) == IF c THEN {tag} ELSE {}
Init == s \in 1..Len(T.scens) /\ l = 1 /\ cov = {}
Report(e, diffs, props, why) ==
    IF diffs = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, e>>))
Get(e) ==
    LET o == F!Outcome(e)
        diffs == If(e.len > e.max, "too.long")
                 \cup If(e.err /\ e.len > 0, "data.and.error")
                 \cup If(o = "body" /\ e.err, "refused")
                 \cup If(o = "body" /\ ~e.err /\ ~e.same, "changed")
                 \cup If(o # "body" /\ ~e.err, "accepted")
                 \cup If(o = "http" /\ e.err /\ e.http # e.status, "status")
                 \cup If(o = "error" /\ e.http # 0, "status") \cup If(o = "any" /\ e.http \notin {0, e.status}, "status")
                 \cup If(e.err /\ o # "body" /\ F!Classes(e) # {"free"} /\ ({"repository", "length", "http"} \cup F!Classes(e)) \cap Range(e.cls) # F!Classes(e), "class")
        \* a wrong status code misleads the search for new roots
        props == If(diffs \ {"class"} # {}, "C15") \cup If("class" \in diffs, "C30") \cup If("status" \in diffs, "C16") \cup If("accepted" \in diffs /\ e.status # 200 /\ e.how \notin F!NoAnswer, "C16") IN
    /\ Report(e, diffs, props, <<o>>)
    /\ cov' = cov \cup {o \o ":" \o e.how}
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "get" -> Get(e)
         [] e.e = "hang" -> Report(e, {e.e}, {"C15", "C14"}, <<>>) /\ UNCHANGED cov
         [] e.e = "panic" -> Report(e, {e.e}, {"C15", "C27"}, <<>>) /\ UNCHANGED cov
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
