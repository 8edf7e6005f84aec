------------------------------- MODULE TraceTarget -------------------------------
(***************************************************************************)
(* Checks recorded downloads of targets, searches for cached targets and    *)
(* uses of target descriptions against Target.tla.  Every event has the     *)
(* files of the whole scratch tree before and after.                        *)
(***************************************************************************)
EXTENDS TraceCommon
VARIABLES s, l, cfg, loc, cov
vars == <<s, l, cfg, loc, cov>>
Contents == T.scens[s].data.contents
SizeOf(id) == IF id >= 1 THEN Contents[id].size ELSE -1
DigestOf(id, alg) == IF alg = "sha512" THEN Contents[id].sha512 ELSE Contents[id].sha256
INSTANCE Target WITH Size <- SizeOf, Digest <- DigestOf

Evs == T.scens[s].ev
Init == s \in 1..Len(T.scens) /\ l = 1 /\ cfg = [cache |-> FALSE, prefix |-> FALSE, url |-> "", dir |-> ""] /\ loc = [q \in {} |-> ""] /\ cov = {}

If(c, tag) == IF c THEN {tag} ELSE {}
SameFn(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
At(f, k) == IF Has(f, k) THEN f[k] ELSE None
Report(e, diffs, props, why) ==
    IF diffs = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, [k \in DOMAIN e \ {"pre", "post"} |-> e[k]]>>))

Parent(p) == LET k == LastSlash(p, Len(p)) IN SubSeq(p, 1, k - 1)
\* a new client makes its directories and stores the root; without a cache it writes nothing
New(e) ==
    LET changed == {n \in DOMAIN e.pre \cup DOMAIN e.post : At(e.pre, n) # At(e.post, n)}
        dirs == {e.md, e.dir}
        made == {n \in changed : ~Has(e.pre, n) /\ e.post[n] = -1}
        diffs == If(e.err, "new.err") \cup If(~e.cache /\ changed # {}, "new.files")
                 \cup If(e.cache /\ ~(changed \subseteq (made \cap (dirs \cup {Parent(d) : d \in dirs})) \cup {e.md \o "/root.json"}), "new.files")
                 \cup If(e.cache /\ ~e.err /\ \E n \in dirs : At(e.post, n) # -1, "new.dirs") IN
    /\ Report(e, diffs, If("new.err" \in diffs, "C11") \cup If(diffs \cap {"new.files", "new.dirs"} # {}, "C19"), <<>>)
    /\ cfg' = [cache |-> e.cache, prefix |-> e.prefix, url |-> e.url, dir |-> e.dir]
    /\ UNCHANGED loc
    /\ cov' = cov \cup {"cache:" \o ToString(e.cache), "prefix:" \o ToString(e.prefix)}

\* is the file where ti goes free to be written, and in an existing directory?
Place(e) == IF e.file # "" THEN e.file ELSE IF Has(loc, e.ti.path) THEN loc[e.ti.path] ELSE ""
Blocked(e) ==
    LET p == Place(e) IN
    \/ e.file = "" /\ e.ti.path \in NoFile
    \/ p # "" /\ (At(e.pre, p) = -1 \/ ~Has(e.pre, Parent(p)))
    \* not known yet where it goes, and a directory is in the targets directory
    \/ p = "" /\ \E n \in DOMAIN e.pre : DirectChild(cfg.dir, n) /\ e.pre[n] = -1

Download(e) ==
    LET url == IF e.base # "" THEN e.base ELSE cfg.url
        noURL == url = ""
        match == e.k = "content" /\ e.id >= 1 /\ Matches(e.ti, e.id)
        ok == match /\ ~noURL
        stuck == cfg.cache /\ Blocked(e)
        r == e.reqs
        placeOK == IF e.file # "" THEN e.path = e.file ELSE LocOK(loc, cfg.dir, e.ti.path, e.path)
        changed == {n \in DOMAIN e.pre \cup DOMAIN e.post : At(e.pre, n) # At(e.post, n)}
        diffs ==
            If(noURL /\ Len(r) # 0, "url.none") \cup If(~noURL /\ Len(r) # 1, "requests")
            \cup (IF noURL \/ Len(r) = 0 THEN {} ELSE
                    If(~URLOK(r[1].url, e.ti, url, cfg.prefix), "url") \cup If(r[1].max # e.ti.len, "max") \cup If(~r[1].timeout, "timeout"))
            \cup If(~ok /\ ~e.err, "accepted") \cup If(ok /\ ~stuck /\ e.err, "refused")
            \cup If(e.err /\ e.got # None, "data.onerror") \cup If(~e.err /\ e.got # e.id, "data")
            \cup If(e.err /\ changed # {}, "files.onerror")
            \cup If(~e.err /\ cfg.cache /\ ~placeOK, "place")
            \cup If(~e.err /\ ~cfg.cache /\ changed # {}, "files.nocache")
            \cup If(~e.err /\ cfg.cache /\ (changed \subseteq {e.path}) /\ At(e.post, e.path) # e.id, "stored")
            \cup If(~e.err /\ cfg.cache /\ ~(changed \subseteq {e.path}), "files.other")
        props == If(diffs \cap {"accepted", "data.onerror", "data", "files.onerror", "stored", "refused"} # {}, "C17")
                 \cup If("accepted" \in diffs /\ cfg.cache, "C29")
                 \cup If(diffs \cap {"url", "requests", "url.none"} # {}, "C18")
                 \cup If(diffs \cap {"max", "timeout"} # {}, "C15")
                 \cup If(diffs \cap {"place", "files.nocache", "files.other", "files.onerror"} # {}, "C19")
                 \cup If("refused" \in diffs, "C11") \cup If("place" \in diffs, "C29") IN
    /\ Report(e, diffs, props, <<ok, stuck>>)
    /\ loc' = IF ~e.err /\ cfg.cache /\ e.file = "" THEN (e.ti.path :> e.path) @@ loc ELSE loc
    /\ UNCHANGED cfg
    /\ cov' = cov \cup {"download:" \o (IF ok THEN IF stuck THEN "blocked" ELSE "ok" ELSE IF noURL THEN "nourl" ELSE IF e.k # "content" THEN e.k ELSE "wrong")}

Find(e) ==
    LET p == Place(e)
        \* the file of this target, if it is known where that is
        cur == IF p = "" THEN None ELSE At(e.pre, p)
        good == cfg.cache /\ cur >= 1 /\ Matches(e.ti, cur)
        \* not known: any file of the targets directory that no other target has
        free == {n \in DOMAIN e.pre : DirectChild(cfg.dir, n) /\ (\A q \in DOMAIN loc : loc[q] # n) /\ e.pre[n] >= 1 /\ Matches(e.ti, e.pre[n])}
        found == e.got # None \/ e.path # ""
        diffs ==
            If(e.err, "find.err") \cup If(Len(e.reqs) # 0, "find.request") \cup If(~SameFn(e.pre, e.post), "find.files")
            \cup (IF p # "" THEN If(good /\ ~found, "find.missed")
                                 \cup If(found /\ ~good, "find.false")
                                 \cup If(found /\ good /\ (e.path # p \/ e.got # cur), "find.other")
                  ELSE If(found /\ ~(cfg.cache /\ e.path \in free /\ e.got = At(e.pre, e.path)), "find.false")) IN
    /\ Report(e, diffs, {"C29"} \cup If("find.files" \in diffs, "C19") \cup If("find.request" \in diffs, "C20") \cup If("find.false" \in diffs, "C17"), <<good>>)
    /\ UNCHANGED <<cfg, loc>>
    /\ cov' = cov \cup {"find:" \o (IF good THEN "good" ELSE IF cur >= 1 THEN "bad" ELSE "none")}

DescribeE(e) ==
    LET d == Describe(e.id, e.algs)
        diffs == IF ~d.ok THEN If(~e.err, "describe.accepted")
                 ELSE If(e.err, "describe.err")
                      \cup If(~e.err /\ (e.ti.len # d.len \/ {[alg |-> e.ti.hs[i].alg, of |-> e.ti.hs[i].of] : i \in DOMAIN e.ti.hs} # d.hs), "describe.other") IN
    /\ Report(e, diffs, {"C31"}, <<d.ok>>)
    /\ cov' = cov \cup {"describe:" \o ToString(d.ok)} /\ UNCHANGED <<cfg, loc>>
Verify(e) ==
    LET ok == Matches(e.ti, e.id)
        diffs == If(ok /\ e.err, "verify.refused") \cup If(~ok /\ ~e.err, "verify.accepted") \cup If(~ok /\ e.err /\ ~e.mismatch, "verify.class") IN
    /\ Report(e, diffs, {"C31", "C17", "C29"} \cup If("verify.class" \in diffs, "C30"), <<ok>>)
    /\ cov' = cov \cup {"verify:" \o ToString(ok)} /\ UNCHANGED <<cfg, loc>>
Equal(e) ==
    LET ok == SameTarget(e.a, e.b) IN
    /\ Report(e, If(ok # e.got, "equal"), {"C31", "C21"}, <<ok>>)
    /\ cov' = cov \cup {"equal:" \o ToString(ok)} /\ UNCHANGED <<cfg, loc>>
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "new" -> New(e)
         [] e.e = "download" -> Download(e)
         [] e.e = "find" -> Find(e)
         [] e.e = "describe" -> DescribeE(e)
         [] e.e = "verify" -> Verify(e)
         [] e.e = "equal" -> Equal(e)
         [] e.e = "panic" -> Report(e, {"panic"}, {"C27", "C17", "C29", "C31"}, <<>>) /\ UNCHANGED <<cfg, loc, cov>>
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
