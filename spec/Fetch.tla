--------------------------------- MODULE Fetch ---------------------------------
(***************************************************************************)
(* What a download with the default fetcher gives, as a function of what    *)
(* the server does and of the allowed length.                               *)
(*   r = [how, status, size, said, cut, max]                                *)
(* how: length (a length is announced), chunked, close (the body ends with  *)
(* the connection), gzip; garbage, hangup, refused, badurl, stall: there is *)
(* no answer; size: bytes that are sent; said: announced length, -1: none;  *)
(* cut: the connection breaks before the end.                               *)
(***************************************************************************)
EXTENDS Integers
NoAnswer == {"garbage", "hangup", "refused", "badurl", "stall"}
\* status codes without a body
Bodyless == {204, 304}
Min(a, b) == IF a < b THEN a ELSE b
\* bytes that belong to the answer
Effective(r) == IF r.how = "length" THEN Min(r.size, r.said) ELSE r.size
Complete(r) == ~r.cut /\ (r.how = "length" => r.size >= r.said)
TooLong(r) == Effective(r) > r.max \/ (r.how = "length" /\ r.said > r.max)
\* "body": the bytes; "http": an error with the status; "error": another error; "any": some error
Outcome(r) ==
    IF r.how = "stall" /\ r.status # 200 THEN "any"
    ELSE IF r.how \in NoAnswer THEN "error"
    ELSE IF r.status # 200 THEN IF Complete(r) THEN "http" ELSE "any"
    ELSE IF TooLong(r) \/ ~Complete(r) THEN "error"
    ELSE "body"
\* the classes of the error: "free" where it depends on what is seen first
Classes(r) ==
    IF Outcome(r) = "http" THEN {"download", "http"}
    ELSE IF Outcome(r) = "error" /\ r.how \notin NoAnswer /\ TooLong(r)
    THEN IF Complete(r) \/ (r.how = "length" /\ r.said > r.max) THEN {"download", "length"} ELSE {"free"}
    ELSE IF Outcome(r) = "any" \/ r.how = "stall" THEN {"free"}
    ELSE {}
=============================================================================
