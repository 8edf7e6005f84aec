-------------------------------- MODULE Target --------------------------------
(***************************************************************************)
(* Target files: descriptions, downloads and the local copies.              *)
(*   content   the bytes number id have Size(id) and Digest(id, alg)        *)
(*   ti        a target description [path, len, hs], hs a sequence of       *)
(*             [alg, of]: the digest by alg of content number of            *)
(*   files     the file system: name -> content id                          *)
(*   loc       the file a target path is stored in, once known              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size(_), Digest(_, _)

KnownAlgs == {"sha256", "sha512"}
None == 0
Has(f, k) == k \in DOMAIN f
Range(q) == {q[i] : i \in DOMAIN q}
Algs(ti) == {ti.hs[i].alg : i \in DOMAIN ti.hs}

\* content id is what ti describes
Matches(ti, id) ==
    /\ Size(id) = ti.len
    /\ \A i \in DOMAIN ti.hs : ti.hs[i].alg \in KnownAlgs /\ ti.hs[i].of = id

\* a listed digest: that of some content (of), or any other bytes (raw)
DigestValue(h) == IF h.of >= 1 THEN <<"of", h.of>> ELSE <<"raw", h.raw>>
\* two descriptions are of the same target
SameTarget(a, b) ==
    /\ a.len = b.len
    /\ Algs(a) \cap Algs(b) # {}
    /\ \A i \in DOMAIN a.hs, j \in DOMAIN b.hs : a.hs[i].alg = b.hs[j].alg => DigestValue(a.hs[i]) = DigestValue(b.hs[j])

\* the description of content id by the algorithms algs (sha256 if none is named)
Describe(id, algs) ==
    LET as == IF algs = <<>> THEN {"sha256"} ELSE Range(algs) IN
    [ok |-> as \subseteq KnownAlgs, len |-> Size(id), hs |-> {[alg |-> a, of |-> id] : a \in as}]

-----------------------------------------------------------------------------
(* Where it is downloaded from *)
RECURSIVE LastSlash(_, _)
LastSlash(p, i) == IF i = 0 THEN 0 ELSE IF SubSeq(p, i, i) = "/" THEN i ELSE LastSlash(p, i - 1)
WithSlash(u) == IF u # "" /\ SubSeq(u, Len(u), Len(u)) = "/" THEN u ELSE u \o "/"
\* <dir>/<hash>.<name>, with any one of the listed hashes
Prefixed(path, h) ==
    LET k == LastSlash(path, Len(path)) IN SubSeq(path, 1, k) \o h \o "." \o SubSeq(path, k + 1, Len(path))
Hashes(ti) == {IF ti.hs[i].of > 0 THEN Digest(ti.hs[i].of, ti.hs[i].alg) ELSE ti.hs[i].raw : i \in DOMAIN ti.hs}
\* u is where the file described by ti is to be fetched; nothing is said about the
\* hash prefix of a description without hashes
URLOK(u, ti, base, prefix) ==
    IF ~prefix THEN u = WithSlash(base) \o ti.path
    ELSE ti.hs = <<>> \/ \E h \in Hashes(ti) : u = WithSlash(base) \o Prefixed(ti.path, h)

-----------------------------------------------------------------------------
(* Where it is stored *)
RECURSIVE NoSlash(_)
NoSlash(p) == p = "" \/ (SubSeq(p, 1, 1) # "/" /\ NoSlash(SubSeq(p, 2, Len(p))))
\* name is a file directly in directory dir
DirectChild(dir, name) ==
    LET k == Len(dir) + 1 IN
    /\ Len(name) > k /\ SubSeq(name, 1, k) = dir \o "/"
    /\ NoSlash(SubSeq(name, k + 1, Len(name)))
    /\ SubSeq(name, k + 1, Len(name)) \notin {".", ".."}
\* name may be where path is stored, given the places known so far
LocOK(loc, dir, path, name) ==
    /\ DirectChild(dir, name)
    /\ Has(loc, path) => loc[path] = name
    /\ \A q \in DOMAIN loc : q # path => loc[q] # name
\* target paths that cannot name a file in the targets directory
NoFile == {"", ".", ".."}
=============================================================================
