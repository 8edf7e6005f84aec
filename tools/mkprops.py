#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
M, TM, UP, MA, MR, FE, KE, CF, ER = ("metadata/metadata.go", "metadata/trustedmetadata/trustedmetadata.go", "metadata/updater/updater.go",
    "metadata/marshal.go", "metadata/multirepo/multirepo.go", "metadata/fetcher/fetcher.go", "metadata/keys.go", "metadata/config/config.go",
    "metadata/errors.go")
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Only metadata signed by the threshold of its role's keys becomes trusted",
  "Metadata is accepted (by the trusted metadata set, by the updater from the network or from its cache, and by delegation verification) only if it is of the expected type and carries valid signatures, over exactly its content, by at least the threshold number of distinct keys that the delegating trusted metadata lists for that role. Signatures by other keys, repeated signatures, several key IDs of one key, invalid or empty signatures never count towards the threshold, and metadata that gives a role a threshold below one is refused.",
  ["inputs", "histories"], "all documents, key sets, thresholds, signature lists and delegation chains an attacker without the keys can produce",
  "Tests try a handful of wrongly signed files; the space of signature lists, key aliases, thresholds and delegators is unbounded.",
  [M, TM, UP, MA], [("VerifyDelegate", M), ("UpdateRoot/UpdateTimestamp/UpdateSnapshot/UpdateDelegatedTargets", TM)],
  ["trusted set returned by Updater.GetTrustedMetadataSet", "errors of TrustedMetadata.Update*", "errors of Metadata.VerifyDelegate"],
  [("TrustedMetadata", "the metadata trusted now", TM)])
p("C02", "The root of trust advances one version at a time, doubly signed",
  "A new root becomes trusted only if its version is exactly one more than the trusted root's and it is signed by a threshold of the keys of both the trusted root and itself. Hence every root a client ever trusts is connected to its initial root by an unbroken chain, including when intermediate roots are expired or keys are rotated.",
  ["inputs", "histories"], "all sequences of root documents offered in any order",
  "Tests rotate keys along a few fixed chains.",
  [TM, UP], [("UpdateRoot", TM), ("loadRoot", UP)], ["trusted set", "errors of UpdateRoot", "root.json in the cache"], [("Root", "trusted root", TM)])
p("C03", "Trusted metadata never rolls back",
  "Once a timestamp or snapshot is trusted, in memory or in a cache that is still correctly signed, it is never replaced by a timestamp of lower or equal version, by a timestamp that lists a lower snapshot version, or by a snapshot that drops or lowers the version of any listed targets metadata. This holds across sessions that share a cache, even if the older metadata has expired, and targets metadata always has exactly the version the trusted snapshot lists.",
  ["histories", "inputs"], "all histories of sessions, releases and replayed or mixed documents",
  "Rollback protection is about histories; tests cover a few two-step ones.",
  [TM, UP], [("UpdateTimestamp, UpdateSnapshot", TM), ("loadTimestamp, loadSnapshot", UP)], ["trusted set after every operation", "cache directory between sessions"],
  [("Timestamp/Snapshot", "trusted versions", TM)])
p("C04", "Expired metadata is never relied on, judged by one fixed time",
  "No operation succeeds relying on root, timestamp, snapshot or targets metadata whose expiry lies before the reference time, which is fixed when the trusted set (client) is created. An expired timestamp or snapshot may be kept to detect rollbacks but nothing may be built on it, and intermediate roots may be expired while the final one may not.",
  ["inputs", "histories"], "all expiry times of every document relative to the reference time and all orders of operations",
  "Tests use a few fixed expiry dates and one document at a time.",
  [TM, M, UP], [("checkFinalTimestamp, checkFinalSnapshot, RefTime", TM), ("IsExpired", M)], ["errors of Update* and Refresh", "trusted set"], [("RefTime", "reference time", TM)])
p("C05", "Snapshot and targets metadata agree with what lists them",
  "A snapshot received from a repository is accepted only if the trusted timestamp lists it and it has the length and hashes (when given) and the version listed there; targets metadata, top-level or delegated, from network or cache, only if the trusted snapshot lists it and length, hashes (when given) and version agree. Unsupported hash algorithms count as disagreement.",
  ["inputs", "histories"], "all combinations of listed and actual length, hashes and version, for all roles",
  "Tests cover single mismatches on top-level roles.",
  [TM, M], [("UpdateSnapshot, UpdateDelegatedTargets", TM), ("MetaFiles.VerifyLengthHashes", M)], ["trusted set", "errors of Update*"])
p("C06", "Metadata becomes trusted only in the prescribed order",
  "Root can only change before a timestamp is trusted, a timestamp before a snapshot, a snapshot before targets; each level requires the one before it and delegated targets require their trusted delegator. A successful refresh means that all four top-level roles are trusted and came from this order.",
  ["histories", "inputs"], "all orders of operations on the trusted set and all answers to the updater's requests",
  "Tests try a few wrong orders.",
  [TM, UP], [("UpdateRoot, UpdateTimestamp, UpdateSnapshot, UpdateDelegatedTargets", TM), ("Refresh, onlineRefresh", UP)], ["trusted set", "requests issued"])
p("C07", "A refused update changes nothing",
  "When the trusted metadata set refuses a document, every role's trusted metadata is the same as before; when it accepts one, only that document's role changes and the call returns the now trusted metadata. A slot of the trusted set therefore always holds a document that was offered for that role and verified.",
  ["inputs", "histories"], "all refused documents in all states of the trusted set",
  "Tests check errors, rarely the state left behind.",
  [TM], [("Update* assign only after verification", TM)], ["trusted set before and after every call"])
p("C08", "The cache holds exactly the metadata that was verified",
  "With the local cache enabled, a file in the metadata directory changes only to the bytes of a document that was just downloaded and verified for that role, and every metadata document accepted from the network is in the cache when the next request is issued or the call returns successfully. Documents that are refused are never written to the cache, and the cached content of other roles is left alone.",
  ["histories", "inputs", "fault_sequences"], "all histories of sessions, answers, refusals and failing writes",
  "Tests compare file names or single files after complete refreshes.",
  [UP], [("persistMetadata, loadRoot/loadTimestamp/loadSnapshot/loadTargets", UP)], ["metadata directory at every request and return"])
p("C09", "Cached metadata files are replaced atomically",
  "At every moment, whatever step of a cache update fails or is interrupted (crash, full disk, missing or unwritable directory), each metadata file in the cache has either its complete old or its complete new content. After a failed or successful update no temporary files are left in the metadata directory or elsewhere, and a failure to store is reported.",
  ["crash_points", "fault_sequences"], "every point between two file operations of a cache update, and every failure of one",
  "Tests never interrupt or fail a write.",
  [UP], [("persistMetadata: temporary file and rename", UP)], ["directory watches during updates", "directory contents after failures"])
p("C10", "A damaged or stale cache never harms",
  "Whatever the contents of the cache files (missing, truncated, garbage, null, metadata of another role or repository, outdated, wrongly signed), an update from a working repository gives the same result as with an empty cache, except that validly signed newer cached metadata still protects against rollback. Nothing unverified from the cache is ever trusted and nothing in it makes the client panic.",
  ["inputs", "histories"], "all contents of all cache files at the start of a session",
  "Tests delete or replace single files.",
  [UP, TM], [("loadLocalMetadata, loadTimestamp, loadSnapshot, loadTargets", UP)], ["results of Refresh/GetTargetInfo with a damaged cache"])
p("C11", "Correct repositories are always accepted",
  "If a repository serves metadata that satisfies all rules of the TUF client workflow, refresh and target lookup succeed and give the published information, for every legal combination of key types, thresholds, key rotations, consistent snapshots or not, optional lengths and hashes, version numbers, expiry times, delegations, unrecognized fields and formatting. This includes repositories produced with this library's own metadata API.",
  ["inputs", "histories", "configurations"], "all legal repositories and sequences of legal releases",
  "Tests use a few simulated repositories built from one template.",
  [UP, TM, M], [("Refresh, GetTargetInfo", UP), ("VerifyDelegate", M)], ["results of Refresh/GetTargetInfo/Update*"])
p("C12", "Target search follows delegations in pre-order and honours terminating roles",
  "Looking up a target visits delegating roles depth-first in the order in which they are listed, each role at most once, and returns the entry of the first visited role that lists the target; roles after a matching terminating delegation are not searched. If no visited role lists it an error is returned, and a role that cannot be loaded and verified ends the search with an error.",
  ["inputs", "configurations"], "all delegation graphs, including cycles, shared roles, terminating roles and conflicting entries",
  "Tests have a few small fixed graphs.",
  [UP, M], [("preOrderDepthFirstWalk", UP), ("GetRolesForTarget", M)], ["sequence of metadata requests and result of GetTargetInfo"])
p("C13", "A delegated role is only believed for the paths delegated to it",
  "A delegated role is consulted for a target only if a path pattern of the delegation matches the target path segment by segment (shell-style wildcards that do not cross '/') or, when the delegation uses hash prefixes, the lowercase hexadecimal SHA-256 of the path starts with one of them. A target listed by a role for which the path was not delegated is never returned.",
  ["inputs"], "all target paths, patterns and prefixes",
  "Tests have a table of patterns; matching is over unbounded strings.",
  [M, UP], [("IsDelegatedPath, isTargetInPathPattern, GetRolesForTarget", M)], ["IsDelegatedPath/GetRolesForTarget", "requests and result of GetTargetInfo"])
p("C14", "Work caused by a repository is bounded",
  "Whatever a repository answers, a refresh downloads at most the configured number of new root versions and one each of timestamp, snapshot and targets, a target lookup visits at most the configured number of delegated roles (plus one), and every call terminates. Cyclic or endless delegations and endless root chains cannot exceed these limits.",
  ["inputs", "histories", "configurations"], "all repositories, however hostile, and all configured limits",
  "Tests exercise the limits in one or two fixed graphs.",
  [UP], [("loadRoot: MaxRootRotations", UP), ("preOrderDepthFirstWalk: MaxDelegations, visited roles", UP)], ["number of requests per call"])
p("C15", "Downloads never exceed the allowed length",
  "Each metadata download is limited to the length that trusted metadata lists for the file or, where none is listed, to the configured maximum for its role; target downloads are limited to the target's listed length. The default fetcher never returns more bytes than the limit, whatever the server announces or sends, returns complete bodies within it unchanged, and reports statuses other than 200 as HTTP errors carrying the code.",
  ["inputs", "configurations"], "all lengths listed, configured, announced and sent",
  "Tests use well-behaved servers or stub fetchers.",
  [UP, FE], [("downloadMetadata, loadSnapshot, loadTargets, DownloadTarget", UP), ("DownloadFile", FE)], ["maximum length passed to the fetcher", "result of DefaultFetcher.DownloadFile against scripted servers"])
p("C16", "Root discovery stops only at a definite 'no newer root'",
  "While looking for newer roots, only HTTP status 403 or 404 means that the trusted root is the latest; every other failure of the download makes the refresh fail. New root versions are asked for one by one, starting right after the trusted version, until then or until the configured limit, and every verified new root is stored before the next is requested.",
  ["inputs", "fault_sequences"], "all HTTP codes and network errors at every step of root discovery",
  "Tests use 404 only.",
  [UP], [("loadRoot", UP)], ["requests and result of Refresh"])
p("C17", "Downloaded target bytes are exactly what the metadata describes",
  "A target download succeeds only if the bytes have exactly the listed length and match every listed hash, unknown hash algorithms being refused; the returned and the stored bytes are these bytes. If the download or verification fails nothing is returned and a target file that was already stored keeps its content.",
  ["inputs", "fault_sequences"], "all contents and answers of the target server for all target descriptions",
  "Tests download a few good and bad targets.",
  [UP, M], [("DownloadTarget", UP), ("TargetFiles.VerifyLengthHashes", M)], ["result of DownloadTarget", "target directory"])
p("C18", "The right files are requested and valid cached metadata is reused",
  "Root and, with consistent snapshots, snapshot and targets metadata are requested under their version-prefixed names with that exact version, otherwise under plain names, with role names escaped so that they cannot change the URL's path; targets are requested under their path, with a hash prefix on the last path component where configured. Targets metadata and snapshots whose cached copy is what the trusted metadata demands are not downloaded again.",
  ["inputs", "configurations"], "all role names, versions, target paths, configurations and cache states",
  "Tests check a few names.",
  [UP], [("downloadMetadata, loadSnapshot, loadTargets, DownloadTarget", UP)], ["URLs passed to the fetcher"])
p("C19", "Files are only written where they belong",
  "The client writes only regular metadata files named after roles in its metadata directory and target files named after target paths in its targets directory (or at the path the caller gives), whatever the names of roles and targets are; names with path separators, dots or special characters cannot escape or collide with other roles' files. With the local cache disabled nothing is written at all.",
  ["inputs", "configurations"], "all role names, target paths and configurations",
  "Tests use friendly names.",
  [UP, CF], [("persistMetadata, generateTargetFilePath, DownloadTarget, loadLocalMetadata", UP), ("EnsurePathsExist", CF)], ["file system tree before and after"])
p("C20", "Offline mode never uses the network and verifies everything",
  "In the local mode, no request is ever issued, and a refresh or target lookup succeeds only if the cached timestamp, snapshot, targets and needed delegated metadata verify against the given root exactly as downloaded metadata would (signatures, versions, hashes, expiry). Missing or invalid cached metadata gives an error.",
  ["inputs", "histories", "configurations"], "all cache contents and all histories that lead to them",
  "Tests use one valid cache.",
  [UP], [("unsafeLocalRefresh, loadTargets", UP)], ["requests and results with UnsafeLocalMode"])
p("C21", "Several repositories: a target needs the agreement of the threshold",
  "A multi-repository lookup returns target information only if at least the mapping's threshold of distinct repositories of that mapping give the same length and hashes for the target, and it returns exactly that information with exactly the repositories that agree. Repositories that are listed twice count once, repositories that fail are ignored, and two different answers that both reach the threshold are an error.",
  ["inputs", "configurations"], "all maps and all combinations of repository answers",
  "Tests cover parsing the map only; no lookup is tested.",
  [MR], [("GetTargetInfo", MR), ("TargetFiles.Equal", M)], ["result of MultiRepoClient.GetTargetInfo"])
p("C22", "Several repositories: mappings are tried in order up to a terminating match",
  "Mappings are tried in the order of the map file; the first mapping that matches the target path and reaches its threshold decides. If a terminating mapping matches the path without reaching its threshold the search ends with an error, a non-terminating one passes on to the next mapping, and mappings whose paths do not match are skipped. The top-level targets of all repositories are those names that repositories list and this search finds, with what it finds; an error is reported only if the search fails for one of them.",
  ["inputs", "configurations"], "all maps, target paths and repository answers",
  "No lookup is tested.",
  [MR], [("GetTargetInfo", MR)], ["result of MultiRepoClient.GetTargetInfo", "repositories contacted"])
p("C23", "Several repositories are kept apart and the map file is validated",
  "Every repository of the map is verified against its own root only, fetched from its own URL, and cached in its own directory, so nothing served or signed by one repository can affect the metadata of another. A map that is empty, names a repository without a URL or a trusted root, maps paths to a repository it does not define, is not JSON or has a value of a wrong kind is refused, at the latest when the client is made; a download is tried in the given repositories in order, asks no further one after the first success and none for a target that is already stored, and must match the agreed target information.",
  ["inputs", "configurations"], "all maps, roots and repository behaviours",
  "Tests check a few configurations.",
  [MR], [("NewConfig, initTUFClients, DownloadTarget, Refresh", MR)], ["requests per repository", "cache directories", "errors of NewConfig/New/DownloadTarget"])
p("C24", "Adding and revoking keys keeps roles and key lists consistent",
  "Adding a key to a role (top-level, delegated or succinct) makes its ID listed exactly once for that role and its key available; revoking removes it from that role only and removes the key itself exactly when no role uses it any more. Unknown roles or keys are errors that change nothing, and key lists of other roles are never affected.",
  ["histories", "inputs"], "all sequences of additions and revocations over shared keys and roles",
  "Tests do a few fixed sequences.",
  [M], [("RootType/TargetsType AddKey, RevokeKey", M)], ["keys and roles of the metadata after every call"])
p("C25", "Signing and verifying agree, and any tampering is detected",
  "Metadata signed with enough of a role's private keys (ED25519, ECDSA, RSA) verifies under that role, also after being written and read again in any formatting; signing again with the same key replaces its signature and signing with another adds one; a signer that fails or has no usable public key gives an error and changes nothing. After any change to the signed content, its signatures or the keys, verification fails unless a threshold of valid signatures by distinct keys remains.",
  ["inputs", "histories"], "all metadata, key types, sequences of signing, modification and serialization",
  "Tests sign a few files.",
  [M, KE, MA], [("Sign, VerifyDelegate, ClearSignatures", M), ("Key.ToPublicKey, KeyFromPublicKey, ID", KE)], ["errors of Sign/VerifyDelegate"])
p("C26", "Serialization preserves content and signed bytes",
  "Reading metadata and writing it again preserves every field, known or unrecognized, at every level of the document, and leaves the canonical form of the signed part unchanged so that its signatures still verify; writing and reading back metadata built with the API gives equal metadata. Writing the same metadata twice gives the same bytes.",
  ["inputs"], "all metadata documents of all types with arbitrary unrecognized fields and values",
  "Tests have a few sample files.",
  [MA, M], [("MarshalJSON/UnmarshalJSON", MA), ("FromBytes, ToBytes, FromFile, ToFile", M)], ["bytes and fields after a round trip"])
p("C27", "Malformed input gives an error, never a panic or acceptance",
  "No bytes received from a repository, a cache file, a map file or an API caller as metadata make the library panic or loop; input that is not metadata of the expected shape and type is refused with an error: bytes that are not JSON, a missing or null signed part or type, the wrong type, values of a wrong JSON kind, null entries of keys, roles, meta, targets and delegations, duplicate signatures, thresholds that are missing or below one, delegated roles without a name or named like a top-level role, bit lengths outside 1 to 32.",
  ["inputs"], "all byte strings as metadata of any role at any point",
  "Tests have a short list of malformed inputs.",
  [MA, M, TM, UP], [("fromBytes, checkType, checkUniqueSignatures", M), ("UnmarshalJSON", MA)], ["errors and panics of FromBytes and Update*"])
p("C28", "Succinct hash bin delegation partitions all targets into its bins",
  "With succinct delegation of b bits there are exactly 2^b bins with distinct names (prefix, hyphen, fixed-width lowercase hexadecimal number); every target path belongs to exactly one, given by the leading b bits of the path's SHA-256. A role name is recognized as delegated exactly if it is one of the bin names.",
  ["inputs", "configurations"], "all target paths, bit lengths 1 to 32, prefixes and role names",
  "Tests use bit length 8 and 16 names.",
  [M], [("SuccinctRoles.GetRolesForTarget, GetRoles, GetSuffixLen, IsDelegatedRole", M)], ["results of these calls", "requests of GetTargetInfo"])
p("C29", "A cached target is reported only if it is current",
  "Looking for a cached target gives the local file's path and content exactly if the file exists and has the listed length and all listed hashes; in every other case (missing, changed, truncated, extended, a directory, cache disabled) it reports that there is none, without an error and without changing anything.",
  ["inputs", "histories"], "all local files and target descriptions",
  "Tests have one good and one missing file.",
  [UP], [("FindCachedTarget", UP)], ["result of FindCachedTarget", "target directory"])
p("C30", "Errors tell the kind of failure",
  "Refusals by the trusted metadata set are classified: insufficient signatures as unsigned metadata, wrong versions as bad version numbers (an equal timestamp version as the special case of that), expiry as expired metadata, length or hash disagreement as a mismatch, all of which are also repository errors; operations out of order are runtime errors, which are no repository errors. Of failed downloads, a status other than 200 and an answer that is too long are download errors, the latter also length mismatches, and neither is a repository error. A mismatching class never occurs, because the client's decisions depend on these classes.",
  ["inputs", "histories"], "all refused documents in all states",
  "Tests check the class for single failures.",
  [ER, TM, M], [("Err* types and their Is methods", ER), ("Update*", TM)], ["errors.Is/As on errors of Update*"])
p("C31", "Target descriptions made from content match exactly that content",
  "A target description computed from a file or bytes with any supported hash algorithms verifies that content and refuses every other content; unsupported algorithms are refused when computing and when verifying. Two target descriptions are equal exactly if their lengths agree, they have a hash algorithm in common and they agree on every common one.",
  ["inputs"], "all contents, algorithm lists and modifications",
  "Tests use one file.",
  [M], [("TargetFiles.FromFile, FromBytes, VerifyLengthHashes, Equal", M)], ["results of these calls"])
p("C32", "Clients that share a cache directory do not harm each other",
  "Any number of clients, in one process or several, may use one cache directory at the same time. However their steps interleave, whichever of them is killed, and whatever others put into the files meanwhile, each client behaves as specified for the cache as it is when it reads it: it trusts nothing it has not verified itself, it takes up files others have stored only if they pass every check, it replaces files only by documents it has just verified and leaves the others' files (also those being written) alone. With a correct repository that publishes nothing meanwhile, every client succeeds with the published metadata, every file is at every moment complete and verified, and afterwards the cache holds the published metadata and serves the next client.",
  ["schedules", "histories", "crash points"], "all interleavings of any number of clients on one directory, kills, and changes of the cache by others at any moment",
  "Tests use one client at a time.",
  [UP], [("persistMetadata, loadLocalMetadata, load*", UP), ("New", UP)], ["files of the metadata directory at every moment", "requests, results and trusted sets of all clients"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
