From de03abc2050088e0fb7778ad59d7af7da217941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 01/24] fix: trie: deleting a shortcut while other keys are
 updated duplicated keys

maybeAddShortcutToKV kept looping after removing the deleted shortcut from the
update, and inserted the deleted shortcut and the remaining keys a second time.
---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..141b446 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				break
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From 5be13dfc7fe3cd40d1598a0e567e67f771fd370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 02/24] fix: trie: nodes left unchanged or re-created by an
 update were lost from the DB

An update that rewrites a node identically (no-op update) or re-creates a node
scheduled for removal by an earlier uncommitted update did not record it, so the
next commit removed it from the DB while the tree still refers to it.
---
 pkg/mapserver/trie/trie.go       | 21 ++++++++++++---------
 pkg/mapserver/trie/trie_cache.go |  7 +++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 141b446..589b751 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -608,15 +608,18 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 
 // storeNode stores a batch and deletes the old node from cache
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node Hash
+	copy(node[:], h)
+	// The node belongs to the updated tree, even if it is identical to the one it replaces: it
+	// must be present in the DB after the next commit.
+	s.db.cancelRemoveNode(node)
+	// record new node
+	s.db.updateUpdateNodes(node, batch)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	if len(oldRoot) < HashLength || !bytes.Equal(h[:HashLength], oldRoot[:HashLength]) {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..30d6d2c 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -199,3 +199,10 @@ func (db *CacheDB) addRemoveNode(node common.SHA256Output) {
 	db.removedNode[node] = []byte{0}
 	db.removeMux.Unlock()
 }
+
+// cancelRemoveNode: the node is (again) in use, do not remove it
+func (db *CacheDB) cancelRemoveNode(node common.SHA256Output) {
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
+}
-- 
2.43.0


From e4c47f7a8a76272d733f328b521026b6b4713e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 03/24] fix: trie: leaf creation wrote a flag behind the
 caller's key and value slices

---
 pkg/mapserver/trie/trie.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 589b751..646cdc5 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -597,8 +597,9 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 	// shortcut batch of different height, if would be deleted when reverting.
 	h := s.hash(key, value, []byte{byte(height)})
 	h = append(h, byte(1)) // byte(1) is a flag for the shortcut
-	batch[2*iBatch+2] = append(value, byte(2))
-	batch[2*iBatch+1] = append(key, byte(2))
+	// Do not write the flags in the spare capacity of the caller's slices.
+	batch[2*iBatch+2] = append(value[:len(value):len(value)], byte(2))
+	batch[2*iBatch+1] = append(key[:len(key):len(key)], byte(2))
 	if height%4 == 0 {
 		batch[0] = []byte{1} // byte(1) is a flag for the shortcut batch
 		s.storeNode(batch, h, oldRoot, height)
-- 
2.43.0


From 76202bc2e8ecc3af17f096d3e65db55d94e94265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 04/24] fix: trie: absence proofs for a present key and
 malformed proofs

VerifyNonInclusion accepted the leaf of the key itself as a proof of its absence,
did not check sizes of keys, values and audit path elements (so that bytes could be
moved between key and value of a leaf), and paths longer than the key panicked.
The compressed form rejected every absence proof for an empty trie.
---
 pkg/mapserver/trie/trie_merkle_proof.go | 57 +++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..c85e923 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -127,8 +127,45 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 	}
 }
 
+// isWellFormedLeaf checks the sizes of the key and value of a leaf. Without it, moving bytes between
+// key and value would yield different leaves with the same hash.
+func isWellFormedLeaf(key, value []byte) bool {
+	return len(key) == HashLength && len(value) == HashLength
+}
+
+// isWellFormedPath checks that the audit path fits in the trie and contains only hashes and
+// DefaultLeafs.
+func isWellFormedPath(ap [][]byte, key []byte) bool {
+	if len(key) != HashLength || len(ap) > 8*HashLength {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
+// isWellFormedPathC is the same as isWellFormedPath, but for a compressed audit path.
+func isWellFormedPathC(bitmap []byte, ap [][]byte, length int, key []byte) bool {
+	if length < 0 || length > 8*HashLength || length > 8*len(bitmap) || !isWellFormedPath(ap, key) {
+		return false
+	}
+	count := 0
+	for i := 0; i < length; i++ {
+		if bitIsSet(bitmap, i) {
+			count++
+		}
+	}
+	return count == len(ap)
+}
+
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if !isWellFormedLeaf(key, value) || !isWellFormedPath(ap, key) {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -150,11 +187,18 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if !isWellFormedPath(ap, key) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
+	// The leaf of the key itself does not prove its absence
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !VerifyInclusion(root, ap, proofKey, value) {
@@ -175,6 +219,9 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
+	if !isWellFormedLeaf(key, value) || !isWellFormedPathC(bitmap, ap, length, key) {
+		return false
+	}
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
 	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
@@ -200,11 +247,21 @@ func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, lengt
 // VerifyNonInclusionC verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value, proofKey []byte) bool {
+	if s.Root == nil {
+		return true
+	}
+	if !isWellFormedPathC(bitmap, ap, length, key) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
+	// The leaf of the key itself does not prove its absence
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !s.VerifyInclusionC(bitmap, proofKey, value, ap, length) {
-- 
2.43.0


From 739e1ebcffb808434427390491a7c9043e9f39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 05/24] fix: crypto: issuer domain constraint was not enforced

VerifyIssuerConstraints accepted any child domain if the issuer was restricted to a
domain, and applied the restriction only to issuers without a domain.
---
 pkg/common/crypto/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..15a11a1 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -245,7 +245,7 @@ func VerifyIssuerConstraints(
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From 32992024cb3a3a214b28973952c160925cd36554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 06/24] fix: crypto: failed verification removed signatures
 from the policy certificate

The fields excluded from the signature were not restored if serialization failed.
---
 pkg/common/crypto/crypto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 15a11a1..0705f3e 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -136,11 +136,11 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
 	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
 	serializedStruct, err := common.ToJSON(c)
+	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
+		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -288,10 +288,10 @@ func VerifyIssuerSignature(
 	sig := childPolCert.IssuerSignature
 	childPolCert.IssuerSignature = nil
 	serializedStruct, err := common.ToJSON(childPolCert)
+	childPolCert.IssuerSignature = sig // restore previous signature
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
-- 
2.43.0


From f713f54b24a03c84d3a1516372f57d76039c580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 07/24] fix: mysql: CheckCertsExist skipped the last batch if
 it was full

With a multiple of the batch size as number of IDs, the last batch was never
queried and its certificates were reported as absent.
---
 pkg/db/mysql/certs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..795be00 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,7 +27,7 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
+	for i := 0; i+batchSize <= len(ids); i += batchSize {
 		to := i + batchSize
 		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
 			return nil, err
-- 
2.43.0


From 21c6e4e55cae9c6b70e48b9ad6e83e3e64ebc642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 08/24] fix: updater: certificates were stored with the
 expiration of another one

UpdateWithKeepExisting removed the certificates already present from all slices but
the expirations, and UpdateCertsLocally passed only the expirations of the leaves.
---
 pkg/mapserver/updater/updater.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..250f4eb 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,8 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	// The expirations of all unfolded certificates, not only of the leaves.
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
@@ -383,19 +383,21 @@ func UpdateWithKeepExisting(
 		return err
 	}
 
-	// For all those certificates not already present in the DB, prepare three slices: IDs,
-	// names, payloads, and parentIDs.
+	// For all those certificates not already present in the DB, prepare the slices: IDs,
+	// names, payloads, parentIDs, and expirations.
 	payloads := make([][]byte, 0, len(certs))
 	runWhenFalse(maskCerts, func(to, from int) {
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From 593f1bf0b27df002c81ae138d11ad9fd339cf9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 09/24] fix: util: UnfoldCert panicked on a certificate without
 chain

---
 pkg/util/certificate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..ec16604 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -142,8 +142,13 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	// Always add the leaf certificate.
 	certs = append(certs, *leafCert)
 	certIDs = append(certIDs, certID)
-	parentIDs = append(parentIDs, chainIDs[0])
 	names = append(names, ExtractCertDomains(leafCert))
+	if len(chain) == 0 {
+		// No parents.
+		parentIDs = append(parentIDs, nil)
+		return
+	}
+	parentIDs = append(parentIDs, chainIDs[0])
 	// Add the intermediate certs iff their payload is not nil.
 	i := 0
 	for ; i < len(chain)-1; i++ {
-- 
2.43.0


From a7ac4bb89a8c521fd42804506900e2b832f036fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 10/24] fix: journal: intervals ending at the maximum index
 were not merged

---
 cmd/ingest/journal/journal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ingest/journal/journal.go b/cmd/ingest/journal/journal.go
index a8498a7..f11086a 100644
--- a/cmd/ingest/journal/journal.go
+++ b/cmd/ingest/journal/journal.go
@@ -611,7 +611,8 @@ func appendInterval(intervals []Interval, interval Interval) []Interval {
 
 // canMerge reports whether two inclusive intervals overlap or touch.
 func canMerge(a, b Interval) bool {
-	return a.Start <= b.End+1 && b.Start <= a.End+1
+	// Written without b.End+1 and a.End+1, which overflow if the end is the maximum value.
+	return (a.Start <= b.End || a.Start-1 == b.End) && (b.Start <= a.End || b.Start-1 == a.End)
 }
 
 // mergeIntervals returns the smallest interval covering both inputs.
-- 
2.43.0


From 2b709470202f7c580c53f03cb11299d3535c83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 11/24] fix: journal: a bundled directory hid the files of its
 preceding siblings

---
 cmd/ingest/journal/list_files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..ea75efb 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -22,14 +22,16 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
 			if err != nil {
 				return nil, nil, err
 			}
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
-- 
2.43.0


From c541d51e856838ab7e9e3377b8f12a95aa20738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 12/24] fix: ingest: recorded CT log size included indices
 never ingested

If the completed indices do not start at 0, the recorded size made the map server
skip the missing entries at the beginning of the log.
---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..6e99f7e 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("indices before %d are not completed for ingest directory %q",
+			intervals[0].Start, ingestDirBase)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From f2dae0eaf6501710227ecf99c634139b98955418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 13/24] fix: logfetcher: endless loop or panic with unexpected
 number of entries

A server returning no entries made the fetcher query for ever, and one returning
more entries than requested made it panic.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..8a4593a 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -324,11 +324,16 @@ func (f *HttpLogFetcher) getRawEntries(
 		if err != nil {
 			return offset, err
 		}
-		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
+		if len(rsp.Entries) == 0 {
+			return offset, fmt.Errorf("server returned no entries for [%d, %d]", start+offset, end)
+		}
+		// Never take more entries than requested.
+		n := min(int64(len(rsp.Entries)), end-start+1-offset)
+		for i := int64(0); i < n; i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
 		}
-		offset += int64(len(rsp.Entries))
+		offset += n
 	}
 	return end - start + 1, nil
 }
-- 
2.43.0


From 50c65d010c6be00150f63fa1e888537723718697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 14/24] fix: logfetcher: wrong number of entries returned when
 stopping

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index 8a4593a..62dbaee 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -294,7 +294,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 			return batchCount * f.serverBatchSize, err
 		}
 		if f.stopping {
-			return remStart + n, nil
+			return batchCount*f.serverBatchSize + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
 	}
-- 
2.43.0


From f0f0847f3d0bb2ee26b87a31a48b61458d6d14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:31 +0000
Subject: [PATCH 15/24] fix: logfetcher: endless recursion with an inverted
 range in a file name

---
 pkg/mapserver/logfetcher/locallogfetcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..81adb59 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -493,6 +493,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if start > end {
+				return nil, fmt.Errorf("bad index range in file name %s", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
-- 
2.43.0


From 5d32f4bc0135d947ad723975e0a96c1b3772c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 16/24] fix: util: NextTimeOfDay mixed the local date with a
 UTC time of day

With a local date other than the UTC one the result was in the past or more than a
day ahead.
---
 pkg/util/time_wrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..cbea1c4 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,7 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	now := time.Now().UTC() // The time of day is in UTC: use the date in UTC as well.
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0


From 38911f9eed9861d26c321dd660f637a32963780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 17/24] fix: util: ParseDuration accepted malformed numbers and
 overflowing durations

---
 pkg/util/duration.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pkg/util/duration.go b/pkg/util/duration.go
index dbe1f80..b3d2f91 100644
--- a/pkg/util/duration.go
+++ b/pkg/util/duration.go
@@ -45,32 +45,37 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	if len(matches) != 3 {
 		return 0, fmt.Errorf("invalid duration string %s", durationStr)
 	}
-	var (
-		n, _ = strconv.Atoi(matches[1])
-		dur  = time.Duration(n)
-	)
+	n, err := strconv.ParseInt(matches[1], 10, 64)
+	if err != nil {
+		return 0, fmt.Errorf("invalid number %s in duration string %s", matches[1], durationStr)
+	}
+	var factor time.Duration
 	switch unit := matches[2]; unit {
 	case "y":
-		dur *= year
+		factor = year
 	case "w":
-		dur *= week
+		factor = week
 	case "d":
-		dur *= day
+		factor = day
 	case "h":
-		dur *= time.Hour
+		factor = time.Hour
 	case "m":
-		dur *= time.Minute
+		factor = time.Minute
 	case "s":
-		dur *= time.Second
+		factor = time.Second
 	case "ms":
-		dur *= time.Millisecond
+		factor = time.Millisecond
 	case "us", "µs":
-		dur *= time.Microsecond
+		factor = time.Microsecond
 	case "ns":
-		// Value already correct
+		factor = time.Nanosecond
 	default:
 		return 0, fmt.Errorf("invalid time unit %s in duration string %s", unit, durationStr)
 	}
+	dur := time.Duration(n) * factor
+	if dur/factor != time.Duration(n) {
+		return 0, fmt.Errorf("duration out of range %s", durationStr)
+	}
 	return dur, nil
 }
 
-- 
2.43.0


From c49ab1ab2bf8ed3a82ee435a30852aecb26c22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 18/24] fix: updater: domain names with special characters
 corrupted the bulk load

A name with a comma, quote, newline or backslash was written raw to the CSV
file, and MySQL took a backslash as an escape character: the name was altered
or the following rows were lost.
---
 pkg/db/mysql/mysql.go        |  3 ++-
 pkg/mapserver/updater/csv.go | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..d8b5693 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -546,8 +546,9 @@ func loadDomainsTableWithCSV(
 		return nil, fmt.Errorf("setting permissions to file \"%s\": %w", filepath, err)
 	}
 
+	// The names are arbitrary strings: a backslash is not an escape character.
 	str := `LOAD DATA CONCURRENT INFILE ? IGNORE INTO TABLE domains ` +
-		`FIELDS TERMINATED BY ',' ENCLOSED BY '"' LINES TERMINATED BY '\n' ` +
+		`FIELDS TERMINATED BY ',' ENCLOSED BY '"' ESCAPED BY '' LINES TERMINATED BY '\n' ` +
 		`(@domain_id,domain_name) SET ` +
 		`domain_id = FROM_BASE64(@domain_id);`
 	return db.ExecContext(ctx, str, filepath)
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..4a8727f 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"encoding/base64"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -250,5 +251,17 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 
 func stringToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
-	*storage = append(*storage, []byte(s)...)
+	if !strings.ContainsAny(s, ",\"\r\n") {
+		*storage = append(*storage, s...)
+		return
+	}
+	// The field needs quoting (RFC 4180).
+	*storage = append(*storage, '"')
+	for i := 0; i < len(s); i++ {
+		if s[i] == '"' {
+			*storage = append(*storage, '"')
+		}
+		*storage = append(*storage, s[i])
+	}
+	*storage = append(*storage, '"')
 }
-- 
2.43.0


From 7e9ddd5cd11e374dccbb731a598cc0097d887723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 19/24] fix: updater: shard out of range with a number of
 workers not a power of two

The shard of an ID could be greater or equal to the number of workers, and
with more than 256 workers the shift was negative.
---
 pkg/mapserver/updater/manager.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..1338ce6 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -42,11 +42,12 @@ func NewManager(
 	multiInsertSize int,
 	stats *statistics.Stats,
 ) (*Manager, error) {
-	// Compute how many bits we need to cover N partitions (i.e. log2(N).
-	nBits := int(util.Log2(uint(workerCount)))
+	// Compute how many bits we need to cover N partitions (i.e. log2(N). At most one byte.
+	nBits := min(int(util.Log2(uint(workerCount))), 8)
 
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		// There are more partitions than workers if their number is not a power of two.
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From 06ccd7148bd96e9965a9770f24e6e2e018ef6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 20/24] fix: mysql: CheckPoliciesExist gave wrong answers for
 more than 1024 policies

---
 pkg/db/mysql/policies.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..b4b1185 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -19,6 +19,24 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
+	present := make([]bool, len(ids))
+
+	// The answer to one query is truncated by the DB engine to group_concat_max_len characters
+	// (1024 by default). Make batches.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkPoliciesExist(ctx, ids[from:to], present[from:to]); err != nil {
+			return nil, err
+		}
+	}
+	return present, nil
+}
+
+// checkPoliciesExist should not be called with larger than ~1000 elements,
+// for the same reasons as checkCertsExist.
+func (c *mysqlDB) checkPoliciesExist(ctx context.Context, ids []common.SHA256Output,
+	present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -48,11 +66,9 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		"policies.policy_id = request.policy_id) AS t"
 
 	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
 	var value string
 	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
+		return err
 	}
 	for i, c := range value {
 		if c == '1' {
@@ -60,7 +76,7 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		}
 	}
 
-	return present, nil
+	return nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
-- 
2.43.0


From d6a43a881087d6c94fa7fed0cba26a2a48358b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 21/24] fix: mysql: rows were missing without an error if
 reading them failed halfway

---
 pkg/db/mysql/certs.go    | 3 +++
 pkg/db/mysql/common.go   | 3 +++
 pkg/db/mysql/dirty.go    | 3 +++
 pkg/db/mysql/policies.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 795be00..892e855 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -273,6 +273,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..e03e7f6 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -36,6 +36,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..cd2f9c6 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -107,6 +107,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error iterating dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index b4b1185..72da1db 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -178,6 +178,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From 8b556c2f08e2d140ae858af96bba4962c219dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:22 +0000
Subject: [PATCH 22/24] fix: logfetcher: an abandoned fetch delivered into the
 channel of the next one

fetch() read the fetcher's channel and range while running. When a cycle was
aborted and the next one called StartFetching, the old goroutine sent its
results into the new channel, or on a closed one.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index 62dbaee..f80ce8b 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -109,7 +109,7 @@ func (f *HttpLogFetcher) StartFetching(start, end int64) {
 	f.stopping = false
 	f.start = start
 	f.end = end
-	go f.fetch()
+	go f.fetch(f.chanResults, start, end)
 }
 
 func (f *HttpLogFetcher) StopFetching() {
@@ -182,23 +182,25 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 	return
 }
 
-func (f *HttpLogFetcher) fetch() {
-	defer close(f.chanResults)
+// fetch sends the entries [first,last] to results. The channel and the range belong to this call:
+// StartFetching may have been called again while it still runs.
+func (f *HttpLogFetcher) fetch(results chan<- *result, first, last int64) {
+	defer close(results)
 
-	if f.start > f.end {
+	if first > last {
 		return
 	}
 	// Taking into account the batchSize, compute the # of calls to getEntriesInBatches.
 	// It calls count-1 times with the batchSize, and 1 time with the remainder.
-	count := 1 + (f.end-f.start)/f.processBatchSize
+	count := 1 + (last-first)/f.processBatchSize
 
 	leafEntries := make([]ct.LeafEntry, f.processBatchSize)
 	for i := int64(0); i < count; i++ {
-		start := f.start + i*f.processBatchSize
-		end := min(f.end, start+f.processBatchSize-1)
+		start := first + i*f.processBatchSize
+		end := min(last, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			results <- &result{
 				err: err,
 			}
 			return // Don't continue processing when errors.
@@ -214,7 +216,7 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				results <- &result{
 					err: err,
 				}
 				return
@@ -224,7 +226,7 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				results <- &result{
 					err: err,
 				}
 				return
@@ -235,7 +237,7 @@ func (f *HttpLogFetcher) fetch() {
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				if err != nil {
-					f.chanResults <- &result{
+					results <- &result{
 						err: err,
 					}
 					return
@@ -243,7 +245,7 @@ func (f *HttpLogFetcher) fetch() {
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		results <- &result{
 			certs:  certEntries,
 			chains: chainEntries,
 		}
-- 
2.43.0


From 18d3df4d16c39389744d3b57525ebb6febaf1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 23/24] fix: updater: a batch that failed halfway lost its
 domains

Certificates and policies were stored before their domains. When a later step
failed, the retry skipped them as already present, so that they were never
associated with their domains. Store them last.
---
 pkg/mapserver/updater/updater.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 250f4eb..c9e5bb1 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -597,12 +597,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -630,6 +624,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table. This goes last: a
+	// certificate present in the table is skipped the next time, so its domains must already be
+	// stored, also when one of the steps above fails and the batch is tried again.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -664,15 +666,16 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		t := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC) // TODO(juagargi) use real expirations.
 		expirations[i] = t
 	}
-	// Update policies:
-	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting policies: %w", err)
-	}
-
 	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
 		return fmt.Errorf("updating domain_certs: %w", err)
 	}
 
+	// Update policies. As with the certificates this goes last, because a policy present in the
+	// table is skipped the next time.
+	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting policies: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1d57cd0706257ca53c5ea28ce8589cbe9073d0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:35 +0000
Subject: [PATCH 24/24] fix: trie: a failed commit left the stored root without
 its nodes

Commit removed the replaced nodes from the DB before the new root was saved.
When the removal or anything after it failed, the stored root referred to
removed nodes and the tree could not be updated any more. Save the new root
before removing nodes.
---
 pkg/mapserver/trie/trie_cache.go | 12 ++++++++++--
 pkg/mapserver/trie/trie_tools.go |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index 30d6d2c..836a0c6 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -42,6 +42,7 @@ type DBConn interface {
 	RetrieveTreeNode(ctx context.Context, key common.SHA256Output) ([]byte, error)
 	UpdateTreeNodes(ctx context.Context, keyValuePairs []*db.TreeNodeRecord) (int, error)
 	DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error)
+	SaveRoot(ctx context.Context, root *common.SHA256Output) error
 }
 
 // NewCacheDB: return a cached db
@@ -55,8 +56,9 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
-func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+// commitChangesToDB stores the updated nodes to disk. If there are nodes to remove, it stores the
+// root as well before it removes them, so that the stored root never refers to removed nodes.
+func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context, root []byte) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
 	keysToDelete := []common.SHA256Output{}
@@ -89,6 +91,12 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	}
 
 	if len(keysToDelete) > 0 {
+		if root != nil {
+			err := cacheDB.Store.SaveRoot(ctx, (*common.SHA256Output)(root))
+			if err != nil {
+				return fmt.Errorf("commitChangesToDB | SaveRoot | %w", err)
+			}
+		}
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 		if err != nil {
 			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..47a971a 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -109,7 +109,7 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 }
 
 func (s *Trie) Commit(ctx context.Context) error {
-	err := s.db.commitChangesToDB(ctx)
+	err := s.db.commitChangesToDB(ctx, s.Root)
 	if err != nil {
 		return err
 	}
-- 
2.43.0

