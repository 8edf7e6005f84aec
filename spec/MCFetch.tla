-------------------------------- MODULE MCFetch --------------------------------
(***************************************************************************)
(* A download (C15, C16): a server that sends an answer bit by bit, a       *)
(* network that may end the connection where the answer says so, and a      *)
(* client that reads no more than it needs to know; against Outcome of      *)
(* Fetch.tla, for every small answer and every allowed length.              *)
(***************************************************************************)
EXTENDS Fetch, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Gen

VARIABLES r, pc, wire, got, left, res, sent
vars == <<r, pc, wire, got, left, res, sent>>
\* wire: bytes on their way; left: bytes the server has still to send; got: bytes the client holds
Answers ==
    {[how |-> h, status |-> s, size |-> z, said |-> d, cut |-> c, max |-> m] :
        h \in {"length", "chunked", "close", "gzip"} \cup NoAnswer, s \in {200, 204, 404, 503}, z \in 0..N, d \in {-1} \cup (0..N), c \in BOOLEAN, m \in 0..(N - 1)}
Sensible(a) ==
    /\ (a.how = "length") = (a.said >= 0)
    /\ a.how \in NoAnswer => a.size = 0 /\ ~a.cut
    /\ a.status \in Bodyless => a.size = 0 /\ a.said \in {-1, 0} /\ ~a.cut
    \* where something tells the end of the answer from the end of the connection
    /\ a.cut => a.how = "chunked"
Init == /\ r \in {a \in Answers : Sensible(a)}
        /\ pc = "header" /\ wire = 0 /\ got = 0 /\ left = r.size /\ res = "" /\ sent = 0
End(x) == pc' = "done" /\ res' = x /\ UNCHANGED <<r, wire, got, left, sent>>
\* the first thing that arrives
Header ==
    /\ pc = "header"
    /\ IF r.how \in NoAnswer THEN End("error")
       ELSE IF r.status # 200 THEN End("http")
       ELSE IF r.how = "length" /\ r.said > r.max THEN End("error")
       ELSE pc' = "body" /\ UNCHANGED <<r, wire, got, left, res, sent>>
Send == pc = "body" /\ left > 0 /\ left' = left - 1 /\ wire' = wire + 1 /\ sent' = sent + 1 /\ UNCHANGED <<r, pc, got, res>>
Enough == r.how = "length" /\ got = r.said
Read == /\ pc = "body" /\ wire > 0 /\ ~Enough /\ got <= r.max
        /\ \E k \in 1..wire : k <= (r.max + 1) - got /\ (r.how = "length" => got + k <= r.said) /\ got' = got + k /\ wire' = wire - k
        /\ UNCHANGED <<r, pc, left, res, sent>>
\* one byte too many: that is all one has to know
Over == pc = "body" /\ got > r.max /\ End("error")
\* the end of the answer, or of the connection before it
EndOK == pc = "body" /\ got <= r.max /\ (Enough \/ (wire = 0 /\ left = 0 /\ r.how # "length")) /\ End(IF r.cut THEN "error" ELSE "body")
EndCut == pc = "body" /\ got <= r.max /\ ~Enough /\ wire = 0 /\ left = 0 /\ r.how = "length" /\ End("error")
Next == Header \/ Send \/ Read \/ Over \/ EndOK \/ EndCut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Same == Done => LET o == Outcome(r) IN o = res \/ (o = "any" /\ res \in {"http", "error"}) 
\* C15: never more than one byte beyond what is allowed, and nothing beyond it is handed out
Held == got <= r.max + 1
Given == (Done /\ res = "body") => got <= r.max /\ got = Effective(r)
Ends == <>Done

\* for the driver: every answer
ASSUME Gen => JsonSerialize(IOEnv.POOL, [docs |-> <<>>])
Emit == (Gen /\ pc = "header") => PrintT("GEN " \o ToJson(r))
=============================================================================
