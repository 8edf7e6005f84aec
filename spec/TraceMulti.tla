------------------------------- MODULE TraceMulti -------------------------------
(***************************************************************************)
(* Checks recorded executions of the multi-repository client against        *)
(* Multi.tla, and the trusted set and cache of every repository against     *)
(* TufRules.tla and its own documents.                                      *)
(***************************************************************************)
EXTENDS TraceCommon
VARIABLES s, l, cfg, last, cov
vars == <<s, l, cfg, last, cov>>
Evs == T.scens[s].ev
Repos == T.scens[s].data.repos
Contents == T.scens[s].data.contents
SizeOf(id) == IF id >= 1 THEN Contents[id].size ELSE -1
DigestOf(id, alg) == IF alg = "sha512" THEN Contents[id].sha512 ELSE Contents[id].sha256
R == INSTANCE TufRules WITH Doc <- DocOf, PathInfo <- PathOf
G == INSTANCE Target WITH Size <- SizeOf, Digest <- DigestOf

Has(f, k) == k \in DOMAIN f
Range(q) == {q[i] : i \in DOMAIN q}
If(c, tag) == IF c THEN {tag} ELSE {}
AnswerOf(n, path) == IF Repos[n].ok /\ Has(Repos[n].tgts, path) THEN {Repos[n].tgts[path]} ELSE {}
MatchingOf(pats, path) == \E i \in DOMAIN pats : R!PatternMatches(pats[i], PathOf(path).segs)
SameOf(a, b) == G!SameTarget(a, b)
M == INSTANCE Multi WITH Answer <- AnswerOf, Matching <- MatchingOf, Same <- SameOf

Init == /\ s \in 1..Len(T.scens) /\ l = 1 /\ cov = {} /\ last = [maps |-> <<>>, fresh |-> FALSE, at |-> {}]
        /\ cfg = [cache |-> FALSE, mdir |-> "", tdir |-> "", shared |-> FALSE]
Report(e, diffs, props, why) ==
    IF diffs = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson(<<T.scens[s].n, l, diffs, props, why, [k \in DOMAIN e \ {"pre", "post", "tm"} |-> e[k]]>>))
At(f, k) == IF Has(f, k) THEN f[k] ELSE 0

\* --- what every repository may trust and store
Own(n) == Range(Repos[n].docs) \cup {Repos[n].root}
TmOK(n, tm) ==
    /\ R!TypedInv(tm)
    /\ {tm.root, tm.ts, tm.sn} \cup {tm.tg[k] : k \in DOMAIN tm.tg} \subseteq Own(n) \cup {0}
    /\ R!SignedInv(tm) /\ R!OrderInv(tm)
Under(dir, name) == Len(name) > Len(dir) + 1 /\ SubSeq(name, 1, Len(dir) + 1) = dir \o "/"
\* name may hold content v
FileOK(c, name, v) ==
    \/ v = -1 /\ (name \in {"l1", "l1/l2"} \/ (c.cache /\ (name \in {c.mdir, c.tdir} \/ Under(c.mdir, name))))
    \/ c.cache /\ \E n \in DOMAIN Repos : G!DirectChild(c.mdir \o "/" \o n, name) /\ v \in Own(n)
    \/ c.cache /\ ~c.shared /\ \E n \in DOMAIN Repos : G!DirectChild(c.mdir \o "/" \o n \o "/targets", name)
    \/ c.cache /\ c.shared /\ G!DirectChild(c.tdir, name)
FilesOK(c, post) == \A name \in DOMAIN post : FileOK(c, name, post[name])
StampDiffs(c, e) == If("tm" \in DOMAIN e /\ \E n \in DOMAIN e.tm : ~TmOK(n, e.tm[n]), "trust") \cup If(~FilesOK(c, e.post), "files")
StampProps(d) == If("trust" \in d, "C23") \cup If("files" \in d, "C23") \cup If("files" \in d, "C19")

Config(e) ==
    LET diffs == If(e.wrong \in {"", "lateroot", "inway"} /\ e.err, "config.refused") \cup If(e.wrong \notin {"", "lateroot", "inway", "badurl"} /\ ~e.err, "config.accepted") IN
    /\ Report(e, diffs, {"C23"}, <<e.wrong>>)
    /\ last' = [maps |-> e.maps, fresh |-> FALSE, at |-> {}]
    /\ UNCHANGED cfg
    /\ cov' = cov \cup {"config:" \o e.wrong}
New(e) ==
    LET c == [cache |-> e.cache, mdir |-> e.mdir, tdir |-> e.tdir, shared |-> e.shared]
        badroot == \E n \in DOMAIN Repos : R!InitHard(Repos[n].root) # {}
        good == ~badroot /\ e.wrong = ""
        diffs == If(e.err /\ good, "new.refused") \cup If(~e.err /\ ~good, "new.accepted") \cup If(e.err # e.nil, "new.nil")
                 \cup If(e.wrong # "inway" /\ ~FilesOK(c, e.post), "files") IN
    /\ Report(e, diffs, {"C23"} \cup If("new.accepted" \in diffs, "C01") \cup If("new.refused" \in diffs, "C11") \cup StampProps(diffs), <<>>)
    /\ cfg' = c /\ last' = [last EXCEPT !.fresh = TRUE]
    /\ cov' = cov \cup {"new:" \o ToString(e.err)}
Refresh(e) ==
    LET good == \A n \in DOMAIN Repos : Repos[n].ok
        d == StampDiffs(cfg, e)
        notdone == ~e.err /\ \E n \in DOMAIN e.tm : ~Has(e.tm[n].tg, "targets")
        diffs == If(good /\ last.fresh /\ e.err, "refresh.refused") \cup If(~good /\ ~e.err, "refresh.accepted") \cup If(notdone, "refresh.partial") \cup d IN
    /\ Report(e, diffs, {"C23"} \cup If("refresh.refused" \in diffs, "C11") \cup StampProps(d), <<>>)
    /\ last' = [last EXCEPT !.fresh = FALSE] /\ UNCHANGED cfg
    /\ cov' = cov \cup {"refresh:" \o ToString(good) \o ToString(last.fresh)}
HsSet(ti) == {[alg |-> ti.hs[i].alg, of |-> ti.hs[i].of] : i \in DOMAIN ti.hs}
Info(e) ==
    LET w == M!Lookup(last.maps, e.path)
        d == StampDiffs(cfg, e)
        said == \E n \in w.group : \E a \in AnswerOf(n, e.path) : a.len = e.got.len /\ HsSet(a) = HsSet(e.got)
        diffs == If(w.ok /\ e.err, "info.refused") \cup If(~w.ok /\ ~e.err, "info.accepted")
                 \cup If(w.ok /\ ~e.err /\ Range(e.repos) # w.group, "info.repos")
                 \cup If(w.ok /\ ~e.err /\ Len(e.repos) # Cardinality(Range(e.repos)), "info.repos")
                 \cup If(w.ok /\ ~e.err /\ ~said, "info.other") \cup d
        props == If(diffs \cap {"info.refused", "info.accepted", "info.repos", "info.other"} # {}, "C21")
                 \cup If(diffs \cap {"info.refused", "info.accepted", "info.repos", "info.other"} # {}, "C22")
                 \cup If("info.refused" \in diffs, "C23")
                 \cup StampProps(d) IN
    /\ Report(e, diffs, props, <<w>>)
    /\ last' = [last EXCEPT !.fresh = FALSE] /\ UNCHANGED cfg
    /\ cov' = cov \cup {"info:" \o w.why}
\* what the repositories list themselves, and may be used by the map
Listed(S) == UNION {IF Repos[n].ok THEN DOMAIN Repos[n].tgts ELSE {} : n \in S}
Top(e) ==
    LET d == StampDiffs(cfg, e)
        usable(p) == M!Lookup(last.maps, p).ok
        right(p) == LET w == M!Lookup(last.maps, p) IN
                    w.ok /\ \E n \in w.group : \E a \in AnswerOf(n, p) : e.got[p].path = p /\ a.len = e.got[p].len /\ HsSet(a) = HsSet(e.got[p])
        diffs == If(~e.err /\ \E p \in DOMAIN e.got : ~right(p), "top.other")
                 \cup If(~e.err /\ \E p \in Listed(Range(e.ready)) : usable(p) /\ p \notin DOMAIN e.got, "top.missing")
                 \cup If(e.err /\ \A p \in Listed(DOMAIN Repos) : usable(p), "top.refused")
                 \cup If(e.err /\ DOMAIN e.got # {}, "top.onerror") \cup d IN
    /\ Report(e, diffs, If("top.other" \in diffs, "C21") \cup If(diffs \cap {"top.missing", "top.refused", "top.onerror"} # {}, "C22") \cup StampProps(d), <<>>)
    /\ UNCHANGED <<cfg, last>>
    /\ cov' = cov \cup {"top:" \o ToString(e.err) \o (IF Len(e.ready) = Cardinality(DOMAIN Repos) THEN "" ELSE ":some")}
Content(v) == IF v < -100 THEN -100 - v ELSE 0
TDir(n) == IF cfg.shared THEN cfg.tdir ELSE cfg.mdir \o "/" \o n \o "/targets"
Download(e) ==
    LET p == e.ti.path
        serves(n) == e.serves[n] >= 1 /\ G!Matches(e.ti, e.serves[n])
        holds(n) == cfg.cache /\ \E f \in DOMAIN e.pre : [dir |-> TDir(n), path |-> p, file |-> f] \in last.at /\ Content(e.pre[f]) >= 1 /\ G!Matches(e.ti, Content(e.pre[f]))
        \* an empty file may be downloaded once more
        surely(n) == holds(n) /\ e.ti.len > 0
        served == \E n \in Range(e.repos) : serves(n)
        cached == \E n \in Range(e.repos) : holds(n)
        \* the repositories are tried in order, until the first that has it
        works(i) == serves(e.repos[i]) \/ holds(e.repos[i])
        tried == IF \E i \in DOMAIN e.repos : works(i) THEN CHOOSE i \in DOMAIN e.repos : works(i) /\ \A j \in 1..(i - 1) : ~works(j) ELSE Len(e.repos)
        asked == IF tried > 0 /\ surely(e.repos[tried]) THEN tried - 1 ELSE tried
        inorder == /\ Len(e.reqs) = asked
                   /\ \A i \in 1..asked : Under(Repos[e.repos[i]].url \o "/targets", e.reqs[i])
        changed == {f \in DOMAIN e.pre \cup DOMAIN e.post : At(e.pre, f) # At(e.post, f)}
        d == StampDiffs(cfg, e)
        diffs == If((served \/ \E n \in Range(e.repos) : surely(n)) /\ e.err, "download.refused") \cup If(~served /\ ~cached /\ ~e.err, "download.accepted")
                 \cup If(~e.err /\ ~(e.got >= 1 /\ G!Matches(e.ti, e.got)), "download.wrong")
                 \cup If(e.err /\ (e.got # 0 \/ e.path # ""), "download.onerror")
                 \cup If(e.err /\ changed # {}, "download.files")
                 \cup If(e.ti.len > 0 /\ ~inorder, "download.order")
                 \cup If(~e.err /\ cfg.cache /\ tried > 0 /\ ~G!DirectChild(TDir(e.repos[tried]), e.path), "download.place")
                 \cup If(~e.err /\ cfg.cache /\ (Content(At(e.post, e.path)) # e.got \/ ~(changed \subseteq {e.path})), "download.stored")
                 \cup d IN
    /\ Report(e, diffs, {"C23"} \cup If(diffs \ {"download.order", "download.place"} # {}, "C17") \cup StampProps(d), <<served, cached, tried, asked>>)
    /\ last' = [last EXCEPT !.at = IF e.err THEN @ ELSE @ \cup {[dir |-> TDir(n), path |-> p, file |-> e.path] : n \in {n \in Range(e.repos) : G!DirectChild(TDir(n), e.path)}}]
    /\ UNCHANGED cfg
    /\ cov' = cov \cup {"download:" \o (IF served THEN "served" ELSE IF cached THEN "cached" ELSE "none") \o ":" \o ToString(tried)}
Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "config" -> Config(e)
         [] e.e = "new" -> New(e)
         [] e.e = "refresh" -> Refresh(e)
         [] e.e = "info" -> Info(e)
         [] e.e = "top" -> Top(e)
         [] e.e = "download" -> Download(e)
         [] e.e = "panic" -> Report(e, {"panic"}, {"C27", "C21", "C22", "C23"}, <<>>) /\ UNCHANGED <<cfg, last, cov>>
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
