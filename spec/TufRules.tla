------------------------------ MODULE TufRules ------------------------------
(***************************************************************************)
(* The rules of the trusted metadata set: when a document may become        *)
(* trusted, what it means for the set to be in a good state, and which      *)
(* transitions between sets are allowed.  Everything here is a pure         *)
(* operator over abstract documents; the same operators are used            *)
(*   - by Client.tla (the state machine of the updater), model checked in   *)
(*     spec/MCClient*.tla,                                                  *)
(*   - by TraceSet.tla / TraceClient.tla, which check executions recorded   *)
(*     from the Go code.                                                    *)
(*                                                                          *)
(* A document is a record                                                   *)
(*   json   bytes are JSON of the expected overall shape                    *)
(*   typ    "root" | "timestamp" | "snapshot" | "targets" | other           *)
(*   ver    version, exp  expiry (integer time)                             *)
(*   size   length in bytes                                                 *)
(*   sigs   sequence of [kid, mat, ok]: a signature labelled with key id    *)
(*          kid, made with the private key mat; ok: over this content       *)
(*   cs, keys, roles            (root)   keys: key id -> key material       *)
(*   meta   file name -> [ver, len, hs]  (timestamp, snapshot)              *)
(*   tgts   target path -> [len, hs]     (targets)                          *)
(*   dk, dkeys, droles, bl, pre, skids, sthr   delegations of targets       *)
(* A key material "" is a key that cannot be used at all.                   *)
(* hs is a sequence of [alg, of]: the digest by alg of the content `of`.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Doc(_),        \* content id -> document record
          PathInfo(_)    \* target path -> [segs, hash, h4]

None == 0

Range(s) == {s[i] : i \in DOMAIN s}
Has(f, k) == k \in DOMAIN f
If(c, tag) == IF c THEN {tag} ELSE {}
KnownAlgs == {"sha256", "sha512"}
TopLevel == {"root", "timestamp", "snapshot", "targets"}
File(role) == role \o ".json"

-----------------------------------------------------------------------------
(* Signatures *)

SigBy(doc, kid, mat) ==
    \E i \in DOMAIN doc.sigs :
        doc.sigs[i].kid = kid /\ doc.sigs[i].ok /\ doc.sigs[i].mat = mat

\* the distinct keys, of those authorised by kids, that signed doc
Signers(keys, kids, doc) ==
    {keys[k] : k \in {k \in Range(kids) : Has(keys, k) /\ keys[k] # "" /\ SigBy(doc, k, keys[k])}}

ThresholdMet(keys, kids, thr, doc) ==
    /\ thr >= 1
    /\ Cardinality(Signers(keys, kids, doc)) >= thr

KidsUsable(keys, kids) == \A k \in Range(kids) : Has(keys, k) /\ keys[k] # ""

SigReasons(keys, kids, thr, doc) ==
    IF kids = <<>> THEN {"nodeleg"}
    ELSE If(~KidsUsable(keys, kids), "badkey") \cup If(~ThresholdMet(keys, kids, thr, doc), "sig")

-----------------------------------------------------------------------------
(* Delegations *)

Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Pow2(_), HexStr(_, _)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* n in hexadecimal, with exactly len digits
HexStr(n, len) == IF len = 0 THEN "" ELSE HexStr(n \div 16, len - 1) \o Hex[(n % 16) + 1]
\* number of hex digits of the last bin, 2^bl - 1
BinDigits(bl) == (bl + 3) \div 4
BinName(pre, bl, n) == pre \o "-" \o HexStr(n, BinDigits(bl))
\* h4: the four leading bytes of the hash of the path; its bin is the number
\* made of the bl leading bits
Bit(h4, j) == IF j < 0 THEN 0 ELSE (h4[(j \div 8) + 1] \div Pow2(7 - (j % 8))) % 2
SuffixDigit(h4, bl, i) ==
    LET b(k) == Bit(h4, 4 * i + k - (4 * BinDigits(bl) - bl)) IN
    Hex[8 * b(0) + 4 * b(1) + 2 * b(2) + b(3) + 1]
RECURSIVE SuffixFrom(_, _, _)
SuffixFrom(h4, bl, i) == IF i = BinDigits(bl) THEN "" ELSE SuffixDigit(h4, bl, i) \o SuffixFrom(h4, bl, i + 1)
BinNameOf(pre, bl, h4) == pre \o "-" \o SuffixFrom(h4, bl, 0)
HexDigits == {Hex[i] : i \in DOMAIN Hex}
DigitVal(ch) == CHOOSE i \in 0..15 : Hex[i + 1] = ch
\* is name the name of one of the 2^bl bins?
IsBin(pre, bl, name) ==
    LET k == Len(pre) + 1
        suffix == SubSeq(name, k + 1, Len(name))
        digit(i) == SubSeq(suffix, i, i) IN
    /\ Len(name) = k + BinDigits(bl)
    /\ SubSeq(name, 1, k) = pre \o "-"
    /\ \A i \in 1..Len(suffix) : digit(i) \in HexDigits
    /\ DigitVal(digit(1)) < Pow2(4 - (4 * BinDigits(bl) - bl))

\* Shell style matching of one path segment; both are sequences of code
\* points.  42 *  63 ?  91 [  93 ]  94 ^  45 -  92 \
\* ClassEnd: position after the class starting at position i of pat, or 0
RECURSIVE GlobMatch(_, _), ClassScan(_, _, _, _, _)
\* returns [ok, end, hit]; i: next position, hit: matched so far, n: ranges seen
ClassScan(pat, i, ch, hit, n) ==
    LET bad == [ok |-> FALSE, end |-> 0, hit |-> FALSE] IN
    IF i > Len(pat) THEN bad
    ELSE IF pat[i] = 93 /\ n > 0 THEN [ok |-> TRUE, end |-> i + 1, hit |-> hit]
    ELSE LET esc == pat[i] = 92
             p == IF esc THEN i + 1 ELSE i IN
         IF p > Len(pat) \/ (~esc /\ pat[i] \in {45, 93}) THEN bad
         ELSE LET lo == pat[p]
                  ranged == p + 1 <= Len(pat) /\ pat[p + 1] = 45
                  q0 == p + 2
                  esc2 == ranged /\ q0 <= Len(pat) /\ pat[q0] = 92
                  q == IF esc2 THEN q0 + 1 ELSE q0 IN
              IF ranged /\ (q > Len(pat) \/ (~esc2 /\ pat[q] \in {45, 93})) THEN bad
              ELSE LET hi == IF ranged THEN pat[q] ELSE lo
                       nxt == IF ranged THEN q + 1 ELSE p + 1 IN
                   ClassScan(pat, nxt, ch, hit \/ (lo <= ch /\ ch <= hi), n + 1)
GlobMatch(pat, s) ==
    IF pat = <<>> THEN s = <<>>
    ELSE IF pat[1] = 42 THEN
        \/ GlobMatch(Tail(pat), s)
        \/ s # <<>> /\ GlobMatch(pat, Tail(s))
    ELSE IF s = <<>> THEN FALSE
    ELSE IF pat[1] = 63 THEN GlobMatch(Tail(pat), Tail(s))
    ELSE IF pat[1] = 91 THEN
        LET neg == Len(pat) >= 2 /\ pat[2] = 94
            c == ClassScan(pat, IF neg THEN 3 ELSE 2, s[1], FALSE, 0) IN
        c.ok /\ c.hit # neg /\ GlobMatch(SubSeq(pat, c.end, Len(pat)), Tail(s))
    ELSE IF pat[1] = 92 THEN
        Len(pat) >= 2 /\ pat[2] = s[1] /\ GlobMatch(SubSeq(pat, 3, Len(pat)), Tail(s))
    ELSE pat[1] = s[1] /\ GlobMatch(Tail(pat), Tail(s))

\* a pattern matches a path segment by segment: no wildcard crosses a "/"
PatternMatches(pat, segs) ==
    /\ Len(pat) = Len(segs)
    /\ \A i \in DOMAIN pat : GlobMatch(pat[i], segs[i])

IsPrefixOf(p, s) == Len(p) <= Len(s) /\ \A i \in DOMAIN p : p[i] = s[i]

\* is the delegated role (an entry of droles) trusted for path?
RoleCovers(dr, path) ==
    LET pi == PathInfo(path) IN
    IF dr.paths # <<>> THEN \E i \in DOMAIN dr.paths : PatternMatches(dr.paths[i], pi.segs)
    ELSE \E i \in DOMAIN dr.prefixes : IsPrefixOf(dr.prefixes[i], pi.hash)
\* what the code does instead for prefixes: a known finding (known-findings.txt)
RoleCoversB64(dr, path) ==
    dr.paths = <<>> /\ \E i \in DOMAIN dr.prefixes : IsPrefixOf(dr.prefixes[i], PathInfo(path).b64)

\* The roles that doc delegates path to, in order of appearance
Children(doc, path) ==
    CASE doc.dk = "roles" ->
            LET covers(dr) == RoleCovers(dr, path)
                sel == SelectSeq(doc.droles, covers) IN
            [i \in DOMAIN sel |-> [name |-> sel[i].name, term |-> sel[i].term]]
      [] doc.dk = "succinct" ->
            << [name |-> BinNameOf(doc.pre, doc.bl, PathInfo(path).h4),
                term |-> TRUE] >>
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Well-formed documents *)

UniqueSigs(d) == \A i, j \in DOMAIN d.sigs : d.sigs[i].kid = d.sigs[j].kid => i = j
WellFormed(d) ==
    /\ UniqueSigs(d)
    /\ d.typ = "root" => \A r \in DOMAIN d.roles : d.roles[r].thr >= 1
    /\ d.typ = "targets" /\ d.dk = "roles" =>
          \A i \in DOMAIN d.droles : d.droles[i].thr >= 1 /\ d.droles[i].name \notin (TopLevel \cup {""})
    /\ d.typ = "targets" /\ d.dk = "succinct" => d.sthr >= 1 /\ d.bl \in 1..32

\* why bytes are not a document of type typ
ShapeReasons(d, typ) ==
    IF ~d.json THEN {"parse"} ELSE IF d.typ # typ THEN {"type"}
    ELSE If(~WellFormed(d), "parse")

-----------------------------------------------------------------------------
(* Verification by the delegating document *)

RootSig(rd, role, d) ==
    IF ~Has(rd.roles, role) THEN {"nodeleg"}
    ELSE SigReasons(rd.keys, rd.roles[role].kids, rd.roles[role].thr, d)

FirstNamed(droles, role) ==
    CHOOSE i \in DOMAIN droles :
        /\ droles[i].name = role
        /\ \A j \in 1..(i - 1) : droles[j].name # role

TargetsSig(pd, role, d) ==
    CASE pd.dk = "roles" ->
            IF \A i \in DOMAIN pd.droles : pd.droles[i].name # role THEN {"nodeleg"}
            ELSE LET dr == pd.droles[FirstNamed(pd.droles, role)] IN
                 SigReasons(pd.dkeys, dr.kids, dr.thr, d)
      [] pd.dk = "succinct" ->
            IF ~IsBin(pd.pre, pd.bl, role) THEN {"nodeleg"}
            ELSE SigReasons(pd.dkeys, pd.skids, pd.sthr, d)
      [] OTHER -> {"nodeleg"}

\* does the metadata file entry e describe content id d?
HashesOK(hs, id) == \A i \in DOMAIN hs : hs[i].alg \in KnownAlgs /\ hs[i].of = id
EntryOK(e, id) == HashesOK(e.hs, id) /\ (e.len # 0 => e.len = Doc(id).size)

-----------------------------------------------------------------------------
(* The trusted set.  tm = [root, ts, sn, tg]: content ids; tg: role -> id    *)
(* "hard" reasons: the document is not loaded.  "soft" reasons: it is loaded *)
(* (to protect against rollback) but the operation reports an error.        *)

EmptyFn == [x \in {} |-> None]
NewSet(root) == [root |-> root, ts |-> None, sn |-> None, tg |-> EmptyFn]

Expired(id, now) == now > Doc(id).exp

InitHard(id) ==
    LET d == Doc(id)
        s == ShapeReasons(d, "root") IN
    IF s # {} THEN s ELSE RootSig(d, "root", d)

RootHard(tm, id) ==
    LET d == Doc(id)
        s == ShapeReasons(d, "root")
        old == Doc(tm.root) IN
    IF tm.ts # None THEN {"order"}
    ELSE IF s # {} THEN s
    ELSE RootSig(old, "root", d)
         \cup {IF x = "sig" THEN "selfsig" ELSE x : x \in RootSig(d, "root", d)}
         \cup If(d.ver # old.ver + 1, "ver")

SnapEntry(id) == Doc(id).meta["snapshot.json"]

TsHard(tm, id, now) ==
    LET d == Doc(id)
        s == ShapeReasons(d, "timestamp") IN
    IF tm.sn # None THEN {"order"}
    ELSE IF Expired(tm.root, now) THEN {"rootexp"}
    ELSE IF s # {} THEN s
    ELSE RootSig(Doc(tm.root), "timestamp", d)
         \cup If(~Has(d.meta, "snapshot.json"), "nosnap")
         \cup IF tm.ts = None THEN {}
              ELSE IF d.ver < Doc(tm.ts).ver THEN {"ver"}
              ELSE IF d.ver = Doc(tm.ts).ver THEN {"equal"}
              ELSE If(Has(d.meta, "snapshot.json") /\ d.meta["snapshot.json"].ver < SnapEntry(tm.ts).ver, "snapver")
TsSoft(id, now) == If(Expired(id, now), "exp")

SnHard(tm, id, trusted, now) ==
    LET d == Doc(id)
        s == ShapeReasons(d, "snapshot") IN
    IF tm.ts = None \/ Has(tm.tg, "targets") THEN {"order"}
    ELSE IF Expired(tm.ts, now) THEN {"tsexp"}
    ELSE If(~trusted /\ ~EntryOK(SnapEntry(tm.ts), id), "hash")
         \cup IF s # {} THEN s
              ELSE RootSig(Doc(tm.root), "snapshot", d)
                   \cup IF tm.sn = None THEN {}
                        ELSE LET o == Doc(tm.sn).meta IN
                             If(\E n \in DOMAIN o : ~Has(d.meta, n), "missing")
                             \cup If(\E n \in DOMAIN o : Has(d.meta, n) /\ d.meta[n].ver < o[n].ver, "ver")
\* snapshot id is not usable as the final one next to timestamp ts
SnSoft(ts, id, now) ==
    If(Expired(id, now), "exp") \cup If(Doc(id).ver # SnapEntry(ts).ver, "snver")

TgHard(tm, id, role, parent, now) ==
    LET d == Doc(id)
        s == ShapeReasons(d, "targets")
        listed == Has(Doc(tm.sn).meta, File(role))
        e == Doc(tm.sn).meta[File(role)] IN
    IF tm.sn = None THEN {"order"}
    ELSE IF SnSoft(tm.ts, tm.sn, now) # {} THEN {IF x = "exp" THEN "snexp" ELSE x : x \in SnSoft(tm.ts, tm.sn, now)}
    ELSE IF parent # "root" /\ ~Has(tm.tg, parent) THEN {"order"}
    ELSE IF ~listed THEN {"unlisted"}
    ELSE If(~EntryOK(e, id), "hash")
         \cup IF s # {} THEN s
              ELSE (IF parent = "root" THEN RootSig(Doc(tm.root), role, d)
                    ELSE TargetsSig(Doc(tm.tg[parent]), role, d))
                   \cup If(d.ver # e.ver, "ver")
                   \cup If(Expired(id, now), "exp")

\* Transitions: [tm, hard, soft]
UpdRoot(tm, id) ==
    LET h == RootHard(tm, id) IN
    [tm |-> IF h = {} THEN [tm EXCEPT !.root = id] ELSE tm, hard |-> h, soft |-> {}]
UpdTs(tm, id, now) ==
    LET h == TsHard(tm, id, now) IN
    [tm |-> IF h = {} THEN [tm EXCEPT !.ts = id] ELSE tm, hard |-> h,
     soft |-> IF h = {} THEN TsSoft(id, now) ELSE {}]
UpdSn(tm, id, trusted, now) ==
    LET h == SnHard(tm, id, trusted, now) IN
    [tm |-> IF h = {} THEN [tm EXCEPT !.sn = id] ELSE tm, hard |-> h,
     soft |-> IF h = {} THEN SnSoft(tm.ts, id, now) ELSE {}]
UpdTg(tm, id, role, parent, now) ==
    LET h == TgHard(tm, id, role, parent, now) IN
    [tm |-> IF h = {} THEN [tm EXCEPT !.tg = (role :> id) @@ tm.tg] ELSE tm, hard |-> h, soft |-> {}]

-----------------------------------------------------------------------------
(* State properties of a trusted set: checked in every state of the model   *)
(* and in every observed state of the implementation.                       *)

IsDoc(id) == id # None /\ Doc(id).json

DelegatorOf(tm, role, id) ==
    \/ RootSig(Doc(tm.root), role, Doc(id)) \cap {"sig", "nodeleg"} = {}
    \/ \E p \in DOMAIN tm.tg : p # role /\ TargetsSig(Doc(tm.tg[p]), role, Doc(id)) \cap {"sig", "nodeleg"} = {}

\* C01: everything trusted is signed by the threshold of its role
SignedInv(tm) ==
    /\ tm.ts # None => "sig" \notin RootSig(Doc(tm.root), "timestamp", Doc(tm.ts)) 
    /\ tm.ts # None => "nodeleg" \notin RootSig(Doc(tm.root), "timestamp", Doc(tm.ts)) 
    /\ tm.sn # None => {"sig", "nodeleg"} \cap RootSig(Doc(tm.root), "snapshot", Doc(tm.sn)) = {}
    /\ \A r \in DOMAIN tm.tg :
          r = "targets" => {"sig", "nodeleg"} \cap RootSig(Doc(tm.root), "targets", Doc(tm.tg[r])) = {}
\* and a role that becomes trusted is signed as one of the trusted roles demands
\* (the one it replaces, if it delegates to itself)
DelegStepOK(old, new) ==
    \A r \in DOMAIN new.tg :
        (r # "targets" /\ (~Has(old.tg, r) \/ old.tg[r] # new.tg[r])) => 
            \/ DelegatorOf(new, r, new.tg[r])
            \/ Has(old.tg, r) /\ TargetsSig(Doc(old.tg[r]), r, Doc(new.tg[r])) \cap {"sig", "nodeleg"} = {}

\* the role names refer to documents of the right type
TypedInv(tm) ==
    /\ Doc(tm.root).typ = "root"
    /\ tm.ts # None => Doc(tm.ts).typ = "timestamp" /\ Has(Doc(tm.ts).meta, "snapshot.json")
    /\ tm.sn # None => Doc(tm.sn).typ = "snapshot"
    /\ \A r \in DOMAIN tm.tg : Doc(tm.tg[r]).typ = "targets"

\* C05: targets metadata agrees with the snapshot, the snapshot with the timestamp
ConsistentInv(tm) ==
    DOMAIN tm.tg # {} =>
        /\ tm.sn # None /\ tm.ts # None
        /\ Doc(tm.sn).ver = SnapEntry(tm.ts).ver
        /\ \A r \in DOMAIN tm.tg :
              /\ Has(Doc(tm.sn).meta, File(r))
              /\ EntryOK(Doc(tm.sn).meta[File(r)], tm.tg[r])
              /\ Doc(tm.tg[r]).ver = Doc(tm.sn).meta[File(r)].ver

\* C04: nothing is built on top of expired metadata
FreshInv(tm, now) ==
    /\ tm.ts # None => ~Expired(tm.root, now)
    /\ tm.sn # None => ~Expired(tm.ts, now)
    /\ DOMAIN tm.tg # {} => ~Expired(tm.sn, now)
    /\ \A r \in DOMAIN tm.tg : ~Expired(tm.tg[r], now)

\* C06: the layers are filled in order
OrderInv(tm) ==
    /\ tm.root # None
    /\ tm.sn # None => tm.ts # None
    /\ DOMAIN tm.tg # {} => tm.sn # None

-----------------------------------------------------------------------------
(* Properties of a transition old -> new of the trusted set                 *)

\* C02
RootStepOK(old, new) ==
    new.root # old.root =>
        /\ Doc(new.root).ver = Doc(old.root).ver + 1
        /\ RootSig(Doc(old.root), "root", Doc(new.root)) \cap {"sig", "nodeleg"} = {}
        /\ RootSig(Doc(new.root), "root", Doc(new.root)) \cap {"sig", "nodeleg"} = {}

\* C03
TsNotOlder(a, b) ==    \* b may replace a
    /\ Doc(b).ver >= Doc(a).ver
    /\ Has(Doc(b).meta, "snapshot.json") /\ SnapEntry(b).ver >= SnapEntry(a).ver
SnNotOlder(a, b) ==
    \A n \in DOMAIN Doc(a).meta :
        Has(Doc(b).meta, n) /\ Doc(b).meta[n].ver >= Doc(a).meta[n].ver
MonotonicStep(old, new) ==
    /\ old.ts # None => new.ts # None /\ (new.ts # old.ts => Doc(new.ts).ver > Doc(old.ts).ver /\ TsNotOlder(old.ts, new.ts))
    /\ old.sn # None => new.sn # None /\ (new.sn # old.sn => SnNotOlder(old.sn, new.sn))

\* C06
OrderStep(old, new) ==
    /\ new.root # old.root => old.ts = None
    /\ new.ts # old.ts => old.sn = None
    /\ new.sn # old.sn => ~Has(old.tg, "targets")
=============================================================================
