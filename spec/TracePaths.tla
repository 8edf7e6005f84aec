------------------------------- MODULE TracePaths -------------------------------
(***************************************************************************)
(* Checks recorded calls of the functions that find the roles responsible   *)
(* for a target path against the delegation rules of TufRules.tla.          *)
(*   covers [role, path, got, err]     DelegatedRole.IsDelegatedPath        *)
(*   roles  [id, path, got, err]       Delegations.GetRolesForTarget        *)
(*   glob   [pat, paths, got, err]     a role with one pattern, many paths  *)
(*   bin    [bl, pre, path, got, is]   SuccinctRoles.GetRolesForTarget      *)
(*   isbin  [bl, pre, name, got]       SuccinctRoles.IsDelegatedRole        *)
(*   bins   [bl, pre, got, len, n, all]  GetRoles, GetSuffixLen             *)
(***************************************************************************)
EXTENDS TraceCommon
INSTANCE TufRules WITH Doc <- DocOf, PathInfo <- PathOf

VARIABLES s, l, cov
vars == <<s, l, cov>>
Evs == T.scens[s].ev
Init == s \in 1..Len(T.scens) /\ l = 1 /\ cov = {}

Out(tag, diffs, props, why, e) == PrintT(tag \o " " \o ToJson(<<T.scens[s].n, l, diffs, props, why, e>>))
Bad(e, diffs, props, want) == Out("BAD", diffs, props, <<want>>, e)
Known(e, prop, key) == PrintT("KNOWN " \o ToJson(<<T.scens[s].n, l, prop, key, e>>))

AsSet(got) == {<<got[i].name, got[i].term>> : i \in DOMAIN got}

Covers(e) ==
    LET want == RoleCovers(e.role, e.path)
        b64 == RoleCoversB64(e.role, e.path) IN
    /\ IF ~e.err /\ e.got = want THEN TRUE
       ELSE IF ~e.err /\ e.role.paths = <<>> /\ e.got = b64 THEN Known(e, "C13", "path-hash-prefix-encoding")
       ELSE Bad(e, {"covers"}, {"C13", "C12"}, want)
    /\ cov' = cov \cup {(IF e.role.paths # <<>> THEN "pattern:" ELSE "prefix:") \o ToString(want)}
\* the roles of a document: with the rule and with the recorded deviation for prefixes
Want(d, path, rule(_, _)) ==
    {<<d.droles[i].name, d.droles[i].term>> : i \in {i \in DOMAIN d.droles : rule(d.droles[i], path)}}
RuleB64(dr, path) == IF dr.paths # <<>> THEN RoleCovers(dr, path) ELSE RoleCoversB64(dr, path)
Roles(e) ==
    LET d == DocOf(e.id)
        want == Want(d, e.path, RoleCovers)
        known == Want(d, e.path, RuleB64) IN
    /\ IF ~e.err /\ AsSet(e.got) = want THEN TRUE
       ELSE IF ~e.err /\ AsSet(e.got) = known THEN Known(e, "C13", "path-hash-prefix-encoding")
       ELSE Bad(e, {"roles"}, {"C13", "C12"}, want)
    /\ cov' = cov \cup {"roles:" \o ToString(Cardinality(want))}
Glob(e) ==
    LET want == {p \in Range(e.paths) : PatternMatches(e.pat, PathOf(p).segs)} IN
    /\ IF e.err = 0 /\ Range(e.got) = want THEN TRUE ELSE Bad([e EXCEPT !.paths = <<>>], {"covers"}, {"C13", "C12"}, want)
    /\ cov' = cov \cup {"glob:" \o (IF want = {} THEN "none" ELSE IF Cardinality(want) = 1 THEN "one" ELSE "some")}
Bin(e) ==
    LET want == {<<BinNameOf(e.pre, e.bl, PathOf(e.path).h4), TRUE>>} IN
    /\ IF AsSet(e.got) = want /\ Len(e.got) = 1 /\ \A i \in DOMAIN e.is : e.is[i] THEN TRUE
       ELSE Bad(e, {"bin"}, {"C28", "C12"}, want)
    /\ cov' = cov \cup {"bin:" \o ToString(e.bl)}
IsBinE(e) ==
    LET want == IsBin(e.pre, e.bl, e.name) IN
    /\ IF e.got = want THEN TRUE ELSE Bad(e, {"isbin"}, {"C28"}, want)
    /\ cov' = cov \cup {"isbin:" \o ToString(want)}
Bins(e) ==
    LET n == Pow2(e.bl)
        want == [i \in 1..n |-> BinName(e.pre, e.bl, i - 1)] IN
    /\ IF e.got = want /\ e.len = BinDigits(e.bl) /\ e.n = n /\ e.all THEN TRUE
       ELSE Bad([e EXCEPT !.got = <<>>], {"bins"}, {"C28"}, "the names of all bins")
    /\ cov' = cov \cup {"bins:" \o ToString(e.bl)}

Next ==
    /\ l <= Len(Evs)
    /\ LET e == Evs[l] IN
       CASE e.e = "covers" -> Covers(e)
         [] e.e = "roles" -> Roles(e)
         [] e.e = "glob" -> Glob(e)
         [] e.e = "bin" -> Bin(e)
         [] e.e = "isbin" -> IsBinE(e)
         [] e.e = "bins" -> Bins(e)
         [] e.e = "panic" -> Bad(e, {"panic"}, {"C27", "C13", "C28"}, "no panic") /\ UNCHANGED cov
    /\ l' = l + 1 /\ s' = s
    /\ (l' > Len(Evs)) => PrintT("COV " \o ToJson(<<T.scens[s].n, cov'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
