From c5eb089f9a55936c95daeb1f72d6d1a0ea4233ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 01/26] fix: multirepo: return the target info that reached the
 threshold

The address of the range variable was kept, so with go 1.21 semantics the
result was the last group iterated over, whether or not it met the threshold.
---
 metadata/multirepo/multirepo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 019bfad..7d278e3 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -261,7 +261,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 					// we went through all repositories listed in that mapping
 					// lets see if we have matched the threshold consensus for the given target file
 					var result *targetMatch
-					for _, target := range matchedTargetGroups {
+					for i, target := range matchedTargetGroups {
 						// compare thresholds for each target info we found with the value stated for its mapping
 						if len(target.repositories) >= eachMap.Threshold {
 							// this target has enough repositories signed for it
@@ -272,7 +272,7 @@ func (client *MultiRepoClient) GetTargetInfo(targetPath string) (*metadata.Targe
 								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
 							} else {
 								// this is the first target we found matching the necessary threshold so save it
-								result = &target
+								result = &matchedTargetGroups[i]
 							}
 						}
 					}
-- 
2.43.0


From 17bab798906e8469c8bc82bbba5f91944c836774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 02/26] fix: updater: visit delegated roles in order of
 appearance

The roles responsible for a target were iterated over in map order, so which
role won, and whether roles listed before a terminating one were consulted at
all, was random.
---
 metadata/updater/updater.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d38a049..51b5d45 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -544,7 +544,8 @@ func (update *Updater) preOrderDepthFirstWalk(targetFilePath string) (*metadata.
 			// note that this may be a slow operation if there are many
 			// delegated roles
 			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
-			for child, terminating := range roles {
+			for _, child := range orderByAppearance(roles, targets.Signed.Delegations) {
+				terminating := roles[child]
 				log.Info("Adding child role", "role", child)
 				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
 				if terminating {
@@ -650,6 +651,24 @@ func ensureTrailingSlash(url string) string {
 	return url + "/"
 }
 
+// orderByAppearance returns the names of the given roles in the order in which
+// they are listed in delegations (i.e. from most to least trusted)
+func orderByAppearance(roles map[string]bool, delegations *metadata.Delegations) []string {
+	res := []string{}
+	for _, r := range delegations.Roles {
+		if _, ok := roles[r.Name]; ok {
+			res = append(res, r.Name)
+		}
+	}
+	if delegations.Roles == nil {
+		// succinct delegations, there is at most one role for a target
+		for name := range roles {
+			res = append(res, name)
+		}
+	}
+	return res
+}
+
 // reverseSlice reverses the elements in a generic type of slice
 func reverseSlice[S ~[]E, E any](s S) {
 	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
-- 
2.43.0


From e5a341d5273bddf77fb8a6f2a8abeaa455298e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 03/26] fix: metadata: return an error for metadata without
 signed or _type

checkType used unchecked type assertions and panicked on such input.
---
 metadata/metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index c017773..a9f8414 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -881,7 +881,14 @@ func checkType[T Roles](data []byte) error {
 	if err := json.Unmarshal(data, &m); err != nil {
 		return err
 	}
-	signedType := m["signed"].(map[string]any)["_type"].(string)
+	signed, ok := m["signed"].(map[string]any)
+	if !ok {
+		return ErrValue{Msg: "metadata has no signed object"}
+	}
+	signedType, ok := signed["_type"].(string)
+	if !ok {
+		return ErrValue{Msg: "metadata has no type"}
+	}
 	switch i.(type) {
 	case *RootType:
 		if ROOT != signedType {
-- 
2.43.0


From 51e433812a65919b1fd777c7ec7ed30eef4b364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 04/26] fix: metadata: reject null entries in keys, roles, meta
 and targets

A null entry was decoded to a nil pointer which was dereferenced later on,
for targets even before the signatures are verified.
---
 metadata/marshal.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 7d262c7..37d4256 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -15,6 +15,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"fmt"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -41,6 +42,12 @@ func (signed *RootType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries(s.Keys, "keys"); err != nil {
+		return err
+	}
+	if err := checkNoNullEntries(s.Roles, "roles"); err != nil {
+		return err
+	}
 	*signed = RootType(s)
 
 	var dict map[string]any
@@ -77,6 +84,9 @@ func (signed *SnapshotType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries(s.Meta, "meta"); err != nil {
+		return err
+	}
 	*signed = SnapshotType(s)
 
 	var dict map[string]any
@@ -111,6 +121,9 @@ func (signed *TimestampType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries(s.Meta, "meta"); err != nil {
+		return err
+	}
 	*signed = TimestampType(s)
 
 	var dict map[string]any
@@ -148,6 +161,9 @@ func (signed *TargetsType) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &s); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries(s.Targets, "targets"); err != nil {
+		return err
+	}
 	*signed = TargetsType(s)
 
 	// populate the path field for each target
@@ -440,6 +456,9 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if err := checkNoNullEntries(a.Keys, "keys"); err != nil {
+		return err
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
@@ -553,6 +572,16 @@ func (b HexBytes) String() string {
 	return hex.EncodeToString(b)
 }
 
+// checkNoNullEntries returns an error if m, decoded from the given field, has a null entry
+func checkNoNullEntries[V any](m map[string]*V, field string) error {
+	for name, v := range m {
+		if v == nil {
+			return ErrValue{Msg: fmt.Sprintf("null entry %s in %s", name, field)}
+		}
+	}
+	return nil
+}
+
 // copyMapValues copies the values of the src map to dst
 func copyMapValues(src, dst map[string]any) {
 	for k, v := range src {
-- 
2.43.0


From 724571ba0fbf801e5463e35bebed3e5b55cd382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 05/26] fix: trustedmetadata: reject a timestamp that does not
 list the snapshot

Such a timestamp was accepted and the missing entry dereferenced by the next
timestamp or snapshot update.
---
 metadata/trustedmetadata/trustedmetadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/trustedmetadata/trustedmetadata.go b/metadata/trustedmetadata/trustedmetadata.go
index 0792493..ff6e7da 100644
--- a/metadata/trustedmetadata/trustedmetadata.go
+++ b/metadata/trustedmetadata/trustedmetadata.go
@@ -116,6 +116,10 @@ func (trusted *TrustedMetadata) UpdateTimestamp(timestampData []byte) (*metadata
 	if err != nil {
 		return nil, err
 	}
+	// the snapshot version is needed to verify the next timestamp and the snapshot
+	if newTimestamp.Signed.Meta[fmt.Sprintf("%s.json", metadata.SNAPSHOT)] == nil {
+		return nil, metadata.ErrRepository{Msg: "timestamp does not contain information for snapshot"}
+	}
 	// if an existing trusted timestamp is updated,
 	// check for a rollback attack
 	if trusted.Timestamp != nil {
-- 
2.43.0


From 611e8710e57d78d97d357980b903e445b9bb95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 06/26] fix: updater: return an error for a role the snapshot
 does not list

loadTargets dereferenced the missing snapshot entry.
---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 51b5d45..aaec8cc 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -434,7 +434,10 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
 	// extract the targets meta from the trusted snapshot metadata
-	metaInfo := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
+	if !ok {
+		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
+	}
 	// extract the length of the target metadata to be downloaded
 	length := metaInfo.Length
 	if length == 0 {
-- 
2.43.0


From 05e217ae118c34dea80cb80b1189268fe8847fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 07/26] fix: metadata: ErrRepository and ErrDownload with a
 message belong to their class

errors.Is(ErrRepository{Msg: ...}, ErrRepository{}) was false.
---
 metadata/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metadata/errors.go b/metadata/errors.go
index 4086720..a140ea6 100644
--- a/metadata/errors.go
+++ b/metadata/errors.go
@@ -32,6 +32,11 @@ func (e ErrRepository) Error() string {
 	return fmt.Sprintf("repository error: %s", e.Msg)
 }
 
+// ErrRepository matches any other ErrRepository no matter its message
+func (e ErrRepository) Is(target error) bool {
+	return target == ErrRepository{}
+}
+
 // ErrUnsignedMetadata - An error about metadata object with insufficient threshold of signatures
 type ErrUnsignedMetadata struct {
 	Msg string
@@ -113,6 +118,11 @@ func (e ErrDownload) Error() string {
 	return fmt.Sprintf("download error: %s", e.Msg)
 }
 
+// ErrDownload matches any other ErrDownload no matter its message
+func (e ErrDownload) Is(target error) bool {
+	return target == ErrDownload{}
+}
+
 // ErrDownloadLengthMismatch - Indicate that a mismatch of lengths was seen while downloading a file
 type ErrDownloadLengthMismatch struct {
 	Msg string
-- 
2.43.0


From f166b39478cddc84f8e5b6d2b75f3049f806a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 08/26] fix: updater: a damaged local metadata file must not
 block the update

Only ErrRepository was recovered from, so a cached file which is not valid
JSON (or fails in any other way) made every Refresh fail until it was deleted.
Such a file is now replaced from the remote, as an unverifiable one is.
---
 metadata/updater/updater.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index aaec8cc..b79483d 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -300,11 +300,11 @@ func (update *Updater) loadTimestamp() error {
 		// local timestamp exists, let's try to verify it and load it to the trusted metadata set
 		_, err := update.trusted.UpdateTimestamp(data)
 		if err != nil {
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local timestamp is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local timestamp is not valid, proceed downloading from remote; it may be damaged in any way, e.g. not even be JSON
 				log.Info("Local timestamp is not valid")
 			} else {
-				// another error
+				// the metadata can't be updated at this point of the workflow
 				return err
 			}
 		}
@@ -349,11 +349,11 @@ func (update *Updater) loadSnapshot() error {
 		_, err = update.trusted.UpdateSnapshot(data, true)
 		if err != nil {
 			// this means snapshot verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local snapshot is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local snapshot is not valid, proceed downloading from remote; it may be damaged in any way, e.g. not even be JSON
 				log.Info("Local snapshot is not valid")
 			} else {
-				// another error
+				// the metadata can't be updated at this point of the workflow
 				return err
 			}
 		} else {
@@ -415,11 +415,11 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		delegatedTargets, err := update.trusted.UpdateDelegatedTargets(data, roleName, parentName)
 		if err != nil {
 			// this means targets verification/loading failed
-			if errors.Is(err, metadata.ErrRepository{}) {
-				// local target file is not valid, proceed downloading from remote; note that this error type includes several other subset errors
+			if !errors.As(err, &metadata.ErrRuntime{}) {
+				// local target file is not valid, proceed downloading from remote; it may be damaged in any way, e.g. not even be JSON
 				log.Info("Local role is not valid", "role", roleName)
 			} else {
-				// another error
+				// the metadata can't be updated at this point of the workflow
 				return nil, err
 			}
 		} else {
-- 
2.43.0


From 1c4abd647699e5654b65dfc4c1be1c903a999094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 09/26] fix: updater: read delegated metadata from the file it
 is persisted to

The role name is escaped when persisting but was used as is when reading, so
such a role was never found in the cache and names with path separators made
the updater read files outside of the metadata directory.
---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index b79483d..44205cb 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -406,7 +406,7 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, roleName))
+	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From f6f3b76cd074b8e0fa27cdcecdbc68704b3abed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 10/26] fix: updater: do not download delegated metadata in
 UnsafeLocalMode

Documented as performing no network interaction, but the delegated roles
missing in the cache were still downloaded by GetTargetInfo.
---
 metadata/updater/updater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 44205cb..ba8fcdc 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -430,6 +430,9 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 	}
 	// local "roleName" does not exist or is invalid, update from remote
 	log.Info("Failed to load local role", "role", roleName)
+	if update.cfg.UnsafeLocalMode {
+		return nil, fmt.Errorf("no valid local metadata for role %s", roleName)
+	}
 	if update.trusted.Snapshot == nil {
 		return nil, fmt.Errorf("trusted snapshot not set")
 	}
-- 
2.43.0


From 555a2ab0c301c55deeb1681b27f87721a87a3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 11/26] fix: updater: create the temporary metadata files in
 the metadata directory

They were created in the working directory, which may be read-only or on
another file system (where rename fails), never closed, and left behind when
the rename failed.
---
 metadata/updater/updater.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index ba8fcdc..9436851 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -585,30 +585,28 @@ func (update *Updater) persistMetadata(roleName string, data []byte) error {
 	}
 	// caching enabled, proceed with persisting the metadata locally
 	fileName := filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName)))
-	cwd, err := os.Getwd()
-	if err != nil {
-		return err
-	}
-	// create a temporary file
-	file, err := os.CreateTemp(cwd, "tuf_tmp")
+	// create a temporary file next to the file it is going to replace
+	file, err := os.CreateTemp(update.cfg.LocalMetadataDir, "tuf_tmp")
 	if err != nil {
 		return err
 	}
 	// write the data content to the temporary file
-	err = os.WriteFile(file.Name(), data, 0644)
+	_, err = file.Write(data)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		// if all okay, rename the temporary file to the desired one
+		err = os.Rename(file.Name(), fileName)
+	}
 	if err != nil {
-		// delete the temporary file if there was an error while writing
+		// delete the temporary file if there was an error while writing or renaming it
 		errRemove := os.Remove(file.Name())
 		if errRemove != nil {
 			log.Info("Failed to delete temporary file", "name", file.Name())
 		}
 		return err
 	}
-	// if all okay, rename the temporary file to the desired one
-	err = os.Rename(file.Name(), fileName)
-	if err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From 45fa7fcd5f4e058a25ede171fd0b9a32411e26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 12/26] fix: updater: build the local target path as a file
 path, not as a URL

url.JoinPath escaped or cut the configured directory if it has characters
that are special in URLs, e.g. a space, '#', '?' or '%'.
---
 metadata/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 9436851..0ce1933 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -629,7 +629,7 @@ func (update *Updater) generateTargetFilePath(tf *metadata.TargetFiles) (string,
 		return "", metadata.ErrValue{Msg: "LocalTargetsDir must be set if filepath is not given"}
 	}
 	// Use URL encoded target path as filename
-	return url.JoinPath(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path))
+	return filepath.Join(update.cfg.LocalTargetsDir, url.QueryEscape(tf.Path)), nil
 }
 
 // loadLocalMetadata reads a local <roleName>.json file and returns its bytes
-- 
2.43.0


From 661f56eec6db0d059b6697952702f0e85f0ef25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 13/26] fix: updater: prefix the last path component of a
 target with its hash

For targets nested more than one directory deep, the first component after the
first directory was prefixed instead of the file name.
---
 metadata/updater/updater.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 0ce1933..9566430 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -225,14 +225,9 @@ func (update *Updater) DownloadTarget(targetFile *metadata.TargetFiles, filePath
 			hashes = hex.EncodeToString(v)
 			break
 		}
-		dirName, baseName, ok := strings.Cut(targetFilePath, "/")
-		if !ok {
-			// <hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s.%s", hashes, dirName)
-		} else {
-			// <dir-prefix>/<hash>.<target-name>
-			targetFilePath = fmt.Sprintf("%s/%s.%s", dirName, hashes, baseName)
-		}
+		// <hash>.<target-name> or <dir-prefix>/<hash>.<target-name>
+		baseIndex := strings.LastIndex(targetFilePath, "/") + 1
+		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:baseIndex], hashes, targetFilePath[baseIndex:])
 	}
 	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)
 	data, err := update.cfg.Fetcher.DownloadFile(fullURL, targetFile.Length, time.Second*15)
-- 
2.43.0


From a1ec47b73d63dd02fe3e7ff952730b1bbb7a6d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 14/26] fix: metadata: reject roles with a threshold below 1

Metadata of a role with threshold 0, or with no threshold at all, was accepted
without any valid signature.
---
 metadata/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 37d4256..fcd67cd 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -423,6 +423,9 @@ func (role *Role) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = Role(a)
 
 	var dict map[string]any
@@ -499,6 +502,9 @@ func (role *DelegatedRole) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = DelegatedRole(a)
 
 	var dict map[string]any
@@ -533,6 +539,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &a); err != nil {
 		return err
 	}
+	if a.Threshold < 1 {
+		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From 3b5add37409ed1711d73fa61354b7bf3617ed584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 15/26] fix: metadata: reject succinct roles with a bit_length
 out of 1..32

A bit_length above 32 made the search for the bin of a target panic (negative
shift), and a negative one selected a bin that does not exist.
---
 metadata/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index fcd67cd..9148283 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -542,6 +542,9 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 	if a.Threshold < 1 {
 		return ErrValue{Msg: fmt.Sprintf("threshold must be at least 1, got %d", a.Threshold)}
 	}
+	if a.BitLength < 1 || a.BitLength > 32 {
+		return ErrValue{Msg: fmt.Sprintf("bit_length must be between 1 and 32, got %d", a.BitLength)}
+	}
 	*role = SuccinctRoles(a)
 
 	var dict map[string]any
-- 
2.43.0


From c80ec61816a7875bf6d72978844c0dbb272e9878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:35 +0000
Subject: [PATCH 16/26] fix: metadata: reject delegated roles named like a
 top-level role

The metadata of a delegated role called e.g. timestamp replaced the cached
timestamp, and with it the protection against rollback across sessions.
---
 metadata/marshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index 9148283..c902db9 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -16,6 +16,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+
+	"golang.org/x/exp/slices"
 )
 
 // The following marshal/unmarshal methods override the default behavior for for each TUF type
@@ -462,6 +464,11 @@ func (d *Delegations) UnmarshalJSON(data []byte) error {
 	if err := checkNoNullEntries(a.Keys, "keys"); err != nil {
 		return err
 	}
+	for _, role := range a.Roles {
+		if role.Name == "" || slices.Contains(TOP_LEVEL_ROLE_NAMES[:], role.Name) {
+			return ErrValue{Msg: fmt.Sprintf("delegated roles cannot be named %q", role.Name)}
+		}
+	}
 	*d = Delegations(a)
 
 	var dict map[string]any
-- 
2.43.0


From d6b08a87794b39ceaf094c2e3307b8b38f5b025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 17/26] fix: metadata: succinct roles delegate to their bins
 only

VerifyDelegate accepted any role name for a delegator with succinct roles, and
IsDelegatedRole accepted suffixes which no bin has, e.g. "+1" or "0A".
---
 metadata/metadata.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a9f8414..f1b94de 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -280,6 +280,9 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
 			}
 		} else if i.Signed.Delegations.SuccinctRoles != nil {
+			if !i.Signed.Delegations.SuccinctRoles.IsDelegatedRole(delegatedRole) {
+				return ErrValue{Msg: fmt.Sprintf("no delegation found for %s", delegatedRole)}
+			}
 			roleKeyIDs = i.Signed.Delegations.SuccinctRoles.KeyIDs
 			roleThreshold = i.Signed.Delegations.SuccinctRoles.Threshold
 		}
@@ -637,7 +640,8 @@ func (role *SuccinctRoles) IsDelegatedRole(roleName string) bool {
 	}
 
 	// check if the bin we calculated is indeed within the range of what we support
-	return (value >= 0) && (value < int64(numberOfBins))
+	// and the suffix is how it is written in the name of that bin
+	return (value >= 0) && (value < int64(numberOfBins)) && suffix == fmt.Sprintf("%0*x", suffixLen, value)
 }
 
 // AddKey adds new signing key for delegated role "role"
-- 
2.43.0


From 746d215ffcb4904a757b0db0b6758b4713f07780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 18/26] fix: metadata: reject ed25519 keys of the wrong length

ed25519.Verify panics when it is given such a key.
---
 metadata/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/keys.go b/metadata/keys.go
index f5150a6..0d1c849 100644
--- a/metadata/keys.go
+++ b/metadata/keys.go
@@ -71,6 +71,9 @@ func (k *Key) ToPublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(publicKey) != ed25519.PublicKeySize {
+			return nil, fmt.Errorf("invalid ed25519 public key")
+		}
 		ed25519Key := ed25519.PublicKey(publicKey)
 		// done for verification - ref. https://github.com/theupdateframework/go-tuf/pull/357
 		if _, err := x509.MarshalPKIXPublicKey(ed25519Key); err != nil {
-- 
2.43.0


From ac9a3afb443f2d80f6bbc7e3da77736bc8849557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 19/26] fix: metadata: count a key once no matter how many key
 IDs it has

A key listed under two key IDs counted twice towards the threshold.
---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index f1b94de..8eed458 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -17,6 +17,7 @@ import (
 	"crypto/hmac"
 	"crypto/sha256"
 	"crypto/sha512"
+	"crypto/x509"
 	"encoding/base64"
 	"encoding/binary"
 	"encoding/hex"
@@ -367,8 +368,13 @@ func (meta *Metadata[T]) VerifyDelegate(delegatedRole string, delegatedMetadata
 			// failed to verify the metadata with that key ID
 			log.Info("Failed to verify %s with key ID %s", delegatedRole, keyID)
 		} else {
-			// save the verified keyID only if verification passed
-			signingKeys[keyID] = true
+			// save the verified key only if verification passed; the same key
+			// may be listed under several key IDs but it counts only once
+			keyBytes, err := x509.MarshalPKIXPublicKey(publicKey)
+			if err != nil {
+				return err
+			}
+			signingKeys[string(keyBytes)] = true
 			log.Info("Verified with key", "role", delegatedRole, "ID", keyID)
 		}
 	}
-- 
2.43.0


From 00846a5a912adeecdb2fca7241718b5bf2bf0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 20/26] fix: metadata: replace the signature when signing again
 with the same key

A second signature of the same key was appended, which FromBytes rejects, and
verification used whichever came last.
---
 metadata/metadata.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 8eed458..d7ab227 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -230,8 +230,14 @@ func (meta *Metadata[T]) Sign(signer signature.Signer) (*Signature, error) {
 		KeyID:     key.ID(),
 		Signature: sb,
 	}
-	// update the Signatures part
-	meta.Signatures = append(meta.Signatures, *sig)
+	// update the Signatures part, there can be only one signature per key ID
+	signatures := []Signature{}
+	for _, s := range meta.Signatures {
+		if s.KeyID != sig.KeyID {
+			signatures = append(signatures, s)
+		}
+	}
+	meta.Signatures = append(signatures, *sig)
 	// return the new signature
 	log.Info("Signed metadata with key", "ID", key.ID())
 	return sig, nil
-- 
2.43.0


From 05ff4a0e7c2a19803c1369f70c23282c7137cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 21/26] fix: multirepo: reject map files that can't be used

A null map or mapping, a repository without URLs or a mapping that refers to
an unknown repository was accepted and caused a panic later on.
---
 metadata/multirepo/multirepo.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 7d278e3..9b032cf 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -69,8 +69,27 @@ func NewConfig(repoMap []byte, roots map[string][]byte) (*MultiRepoConfig, error
 		return nil, err
 	}
 
+	if mapFile == nil {
+		return nil, fmt.Errorf("failed to create multi-repository config: the map file is empty")
+	}
+
+	// make sure each mapping refers to repositories which are present in the repository list
+	for _, eachMap := range mapFile.Mapping {
+		if eachMap == nil {
+			return nil, fmt.Errorf("failed to create multi-repository config: the map file has an empty mapping")
+		}
+		for _, repo := range eachMap.Repositories {
+			if _, ok := mapFile.Repositories[repo]; !ok {
+				return nil, fmt.Errorf("no URL provided for repository - %s", repo)
+			}
+		}
+	}
+
 	// make sure we have enough trusted root metadata files provided based on the repository list
-	for repo := range mapFile.Repositories {
+	for repo, urls := range mapFile.Repositories {
+		if len(urls) == 0 {
+			return nil, fmt.Errorf("no URL provided for repository - %s", repo)
+		}
 		// check if we have a trusted root metadata for this repository
 		_, ok := roots[repo]
 		if !ok {
-- 
2.43.0


From a9cb60edd2e85f6d9bf9aacc2f2430482a6099a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 22/26] fix: multirepo: LocalTargetsDir is optional

New defaults to a targets directory per repository if it is not set, but
failed before on creating the directory with an empty name.
---
 metadata/multirepo/multirepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/multirepo/multirepo.go b/metadata/multirepo/multirepo.go
index 9b032cf..847b167 100644
--- a/metadata/multirepo/multirepo.go
+++ b/metadata/multirepo/multirepo.go
@@ -354,6 +354,10 @@ func (cfg *MultiRepoConfig) EnsurePathsExist() error {
 		return nil
 	}
 	for _, path := range []string{cfg.LocalMetadataDir, cfg.LocalTargetsDir} {
+		// LocalTargetsDir is optional, each repository has its own by default
+		if path == "" {
+			continue
+		}
 		err := os.MkdirAll(path, os.ModePerm)
 		if err != nil {
 			return err
-- 
2.43.0


From 9fddf83bd4a4ecd32053dbb93a5ea209ba09f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 23/26] fix: updater: read the cache of a delegated role named
 .. or . from the metadata dir

---
 metadata/updater/updater.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index 9566430..d06c020 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -401,7 +401,8 @@ func (update *Updater) loadTargets(roleName, parentName string) (*metadata.Metad
 		return role, nil
 	}
 	// try to read local targets
-	data, err := update.loadLocalMetadata(filepath.Join(update.cfg.LocalMetadataDir, url.QueryEscape(roleName)))
+	// the extension is part of the file name when the path is cleaned, so a role named ".." stays in the directory
+	data, err := readFile(filepath.Join(update.cfg.LocalMetadataDir, fmt.Sprintf("%s.json", url.QueryEscape(roleName))))
 	if err != nil {
 		// this means there's no existing local target file so we should proceed downloading it without the need to UpdateDelegatedTargets
 		log.Info("Local role does not exist", "role", roleName)
-- 
2.43.0


From 5f75b2b213d7c82194070f9f87bdd272f8b7e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 24/26] fix: adding a key to targets that delegate to no role
 is an error

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index d7ab227..8b20bce 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -744,6 +744,8 @@ func (signed *TargetsType) AddKey(key *Key, role string) error {
 		}
 		log.Info("SuccinctRoles role already has keyID", "ID", key.ID())
 
+	} else {
+		return ErrValue{Msg: fmt.Sprintf("delegated role %s doesn't exist", role)}
 	}
 	signed.Delegations.Keys[key.ID()] = key // TODO: should we check if we don't accidentally override an existing keyID with another key value?
 	return nil
-- 
2.43.0


From 4191fea1bb925a44fc5b2213787630ebafbe087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 25/26] fix: hex values written with JSON escapes are read

---
 metadata/marshal.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metadata/marshal.go b/metadata/marshal.go
index c902db9..fe0595d 100644
--- a/metadata/marshal.go
+++ b/metadata/marshal.go
@@ -567,11 +567,15 @@ func (role *SuccinctRoles) UnmarshalJSON(data []byte) error {
 }
 
 func (b *HexBytes) UnmarshalJSON(data []byte) error {
-	if len(data) < 2 || len(data)%2 != 0 || data[0] != '"' || data[len(data)-1] != '"' {
+	if len(data) < 2 || data[0] != '"' || data[len(data)-1] != '"' {
 		return errors.New("tuf: invalid JSON hex bytes")
 	}
-	res := make([]byte, hex.DecodedLen(len(data)-2))
-	_, err := hex.Decode(res, data[1:len(data)-1])
+	// the digits may be written with JSON escapes
+	var digits string
+	if err := json.Unmarshal(data, &digits); err != nil {
+		return err
+	}
+	res, err := hex.DecodeString(digits)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 09a5c1473f6ed5f4f4bcd9b8e2a6f10224146474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 26/26] fix: updater: no top-level targets before a refresh
 instead of a panic

---
 metadata/updater/updater.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metadata/updater/updater.go b/metadata/updater/updater.go
index d06c020..e5694e0 100644
--- a/metadata/updater/updater.go
+++ b/metadata/updater/updater.go
@@ -633,8 +633,11 @@ func (update *Updater) loadLocalMetadata(roleName string) ([]byte, error) {
 	return readFile(fmt.Sprintf("%s.json", roleName))
 }
 
-// GetTopLevelTargets returns the top-level target files
+// GetTopLevelTargets returns the top-level target files, there are none before a successful refresh
 func (update *Updater) GetTopLevelTargets() map[string]*metadata.TargetFiles {
+	if update.trusted.Targets[metadata.TARGETS] == nil {
+		return nil
+	}
 	return update.trusted.Targets[metadata.TARGETS].Signed.Targets
 }
 
-- 
2.43.0

