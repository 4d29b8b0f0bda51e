# One entry per claimed property. 'level' proof: the contracts carry the property and every
# obligation is discharged; 'other': the contracts carry a stated part, the rest is bounded.
TRUSTED_COMMON = [
    "gocv: the verification-condition generator in /verif/gocv (self-tested by gocv/selftest)",
    "go/types and the Go 1.25.14 compiler front end (typing of the verified text)",
    "z3 4.8.12, z3-new, cvc5 1.1.2 (one accepting solver per obligation)",
]
CHECKS = {}


def c(id, contracts, level, technique, note, **kw):
    CHECKS[id] = dict(contracts=contracts, level=level, technique=technique, note=note, **kw)


DED = "contract-based deductive verification (gocv VCs, z3/cvc5)"
c("C16", ["sharding.gcv"], "proof", DED,
  "Log2, NumBitsForPartitionCount, PartitionByIdMSB and PartitionByIdLSB proved against spec functions over 2^k and shifts for all inputs (64-bit machine arithmetic modelled exactly).",
  unproved="nothing; requires 0 <= nBits <= 8 for the partition functions (they read one byte)", proof_decides=True)
c("C07", ["ids.gcv"], "proof", DED,
  "BytesToIDs, IDsToBytes, SortIDsAndGlue and SortIDsAndHash proved for all inputs: 32 bytes per ID, ascending, same multiplicities, caller's list untouched, digest = SHA-256 of that encoding and nil for the empty list; lemmas: two ascending lists with the same multiplicities are equal element by element, byte strings with the same 32-byte blocks are equal, hence the encoding and the digest depend only on which IDs the list holds, and splitting and gluing are inverse.",
  unproved="nothing in the four functions; sort.Slice, the hash object and bytes.Compare are assumed contracts", proof_decides=True)
c("C08", ["policies.gcv"], "proof", DED,
  "CheckDomainValidity and ValidateAttributes proved for all inputs: not applicable unless the domain ends with a dot and the policy's domain (one trailing dot ignored on each), otherwise the answer is the one the label after the last remaining dot gets from the three lists, exact entries first, wildcards next, allowed last; validation errs exactly when a CA is listed twice or a label twice within or across the lists. The harness compares with a label-wise oracle.",
  unproved="nothing in the two functions; package strings and slices.Contains are assumed contracts", proof_decides=True)
c("C10", ["issuer.gcv"], "proof", DED,
  "VerifyIssuerConstraints proved for all inputs: no error exactly when the issuer's validity contains the child's (bounds included) and the child's domain is the issuer's or ends with a dot and the issuer's, or the issuer has none. The harness compares with label-wise and Unix-nanosecond oracles.",
  unproved="nothing; time.Time comparisons, strings.HasSuffix and the always-matching pattern are assumed contracts", proof_decides=True)
c("C12", ["unfold.gcv"], "proof", DED,
  "UnfoldCerts, UnfoldCert and ExtractCertDomains proved for all inputs: every level of every chain at its place (levels in order, chains in order within a level), with its certificate, SHA-256 ID, the ID of the next chain element as parent (none for the last), names (exactly common name and DNS names, each once) only for the leaves; UnfoldCert stops at the first unknown-payload ancestor and still names it as parent.",
  unproved="nothing in the three functions (termination of the outer loop of UnfoldCerts is not proved)", proof_decides=True)
c("C21", ["domain.gcv"], "proof", DED,
  "IsValidDomain, removeWildCardAndWWW, SplitE2LD, ParseDomainName, findShortestLength, findLongestSuffix, uniqueValidDomainName, ExtractAffectedDomains and CertSubjectName proved for all inputs against spec functions on bytes, labels and the public suffix list; of more than four names only that every registrable domain gets a name below or equal to it is proved, the exact grouping is checked by the harness.",
  unproved="that the name reported for a group of more than four names is built from exactly that group's labels (bounded); package publicsuffix, strings and the two regular expressions are assumed contracts", proof_decides=True)
c("C23", ["duration.gcv"], "proof", DED,
  "ParseDuration, FmtDuration, NextTimeOfDay, NewTimeOfDay, ParseTimeOfDay and Set proved for all inputs over 64-bit machine arithmetic: exactly number times unit, an error exactly for other or unrepresentable texts, the round trip, and the next occurrence in [now, now + 1 day) with that time of day in UTC. The calendar, strconv.ParseInt and the regular expression are assumed contracts; the harness checks the compiled code with a big-integer oracle.",
  unproved="nothing in these functions", proof_decides=True)
c("C24", ["slices.gcv"], "proof", DED,
  "Qsort (ordered permutation, nothing outside the slice), RemoveElemFromSlice, RemoveElementsFromSlice, ResizeSlice, makeUnique, DeduplicateSlice, DeduplicateSliceWithStorage and the slice wrappers proved for all slices, indices and keys: after deduplication all slices have one length, corresponding elements are together, every key occurs exactly once and is one of the input's; after removal every element at another position is at its place or in a gap of its own (lemmas: such an element always has a place, no two the same).",
  unproved="elements and keys are instantiated with int (the code is generic and does not look at them); makeUnique is proved against the contract of its slice interface, the wrappers against their own contracts of the same content; the key function is assumed to read one of the slices; WithSlice and WithSlicePtr are not under contract; termination", proof_decides=True, timeout=40)
c("C25", ["presence.gcv"], "proof", DED,
  "NewPresenceCache, AddIDs, Contains and Size proved for all inputs: both copies hold exactly the old IDs and the added ones, equal between operations, Contains reads membership whichever copy is current, Size is the number of distinct IDs. Atomics are specified by a rely-guarantee contract (the index is 0 or 1); the interleaving of readers with a writer is exercised by the harness only.",
  unproved="interleavings of concurrent readers and writers (bounded); termination of the spin loops", proof_decides=True)
c("C26", ["ringcache.gcv"], "proof", DED,
  "NewRingCache, Current, Next, Rotate of the reusable-buffer ring for every size, and newRingCache, current, currLength, addElem, rotate of the workers' ring of three proved for all contents: elements come round cyclically (lemmas: after k < n advances another element, after n the same); adding changes only the current buffer, rotating empties only the one moved to, and with buffers that share no storage (as newRingCache makes them, and addElem keeps them) what the others hold stays as it was.",
  unproved="that consumers are done with a buffer before it comes round again is a property of the pipeline's stages and channels (sampled by the harness of C17)", proof_decides=True)
c("C28", ["errors.gcv"], "proof", DED,
  "ErrorsCoalesce and CoalescedErrors.addError proved for all lists of errors: nil exactly when nothing is reported; the result is a flat collection without two members of one message; every plain error and every member of a combined one is found by its message; every member comes from the input; members already collected keep their place.",
  unproved="the relative order of newly added members beyond 'appended after the earlier ones' (each call appends at the end); Error() is an assumed deterministic contract", proof_decides=True)
c("C29", ["logverifier.gcv"], "proof", DED,
  "VerifyInclusionByHash, VerifyRoot and VerifyInclusionWithPrevLogRoot proved for all roots, hashes and lists of proofs: success only with a supplied proof that reconstructs the trusted root for the leaf, success whenever such a proof comes after proofs that are merely for another root; a new root is accepted exactly when both are present and the consistency proof holds or the trusted log is empty, and is returned exactly then. The Merkle reconstruction itself (transparency-dev/merkle) is an assumed contract; the harness uses it against trees it builds.",
  unproved="the Merkle arithmetic of the dependency transparency-dev/merkle (assumed; exercised by the harness)", proof_decides=True)
c("C30", ["updaterun.gcv", "storebatch.gcv", "nodestore.gcv", "logstate.gcv","extract.gcv"], "proof", DED,
  "the update cycle (MapServer.update, updateCerts, prune; MapUpdater.StartFetchingRemaining, NextBatch, startNextFetcher, UpdateNextBatch, updateCertBatch, UpdateCertsLocally, CoalescePayloadsForDirtyDomains, UpdateSMT) executed symbolically over a ghost history of the logs and the database, for any number of logs, batches and failures: a log is fetched from its recorded size to a size it reported; a size is recorded only for the log being fetched, with the tree head of that size, when exactly that many entries were handed out and all of them are stored; no other record changes; a successful cycle read every log to its end; payloads are computed before the tree is updated and dirty marks dropped after it. insertCerts and insertPolicies proved to store a certificate or policy only after its names, also when a step fails (what is stored is skipped when the batch is tried again). Trie.Commit and commitChangesToDB proved to remove old nodes only once the new nodes and then the new root are stored. LastCTlogServerState and UpdateLastCTlogServerState proved to give and set the record of that log and no other.",
  unproved="that the fetchers and the database do what their contracts say (C22 for the HTTP fetcher, C04, C11 and C14 for the other tables); the parser of certificates in UpdateCertsLocally is assumed; integers of a log are assumed below 2^60", proof_decides=True, separate=True)
c("C17", ["pending.gcv"], "other", DED,
  "canMerge, mergeIntervals, appendInterval, addCompletedInterval, containsCompletedInterval and normalizeCompletedIndices proved for all inputs over the full machine-integer domain: the list stays sorted, disjoint and minimal, it covers exactly the old numbers and the added range, a range is reported iff every number in it is recorded (equivalently iff one recorded interval contains it), other directories keep their lists; normalising keeps the numbers of every directory. PendingFiles proved to return exactly the listed files that are not covered, in order; CommitProgress to write exactly the old numbers and those of the given files, with the steps done; CommitCTLogSize the size and nothing else. parseFileInterval, parseIntervalString and normalizeCompletedFile proved to read the two numbers of <first>-<last>[.gz|.csv] and refuse anything else or a reversed range. The listing, currentJob and writeLocked are assumed contracts there.",
  unproved="journal file I/O, JSON round trip and directory listing (executable contracts on generated histories, bounded); slices.BinarySearchFunc is a built-in contract, regexp, strconv and path/filepath are assumed contracts", proof_decides=True)
c("C18", ["ingestrun.gcv"], "proof", DED,
  "runIngest with ingestFilesInBatches, NewJobConfiguration and validate executed symbolically over a ghost history: every call of the batch runner gets exactly the next pending files, a full batch unless they are the last; coalescing and tree update run only if requested, after a successful ingestion and in that order; nothing runs after a failure; CommitProgress gets the batch and phase flags only after they succeeded; success means all pending files are recorded. For all strategies, batch sizes and file lists.",
  unproved="that the callbacks wired in main.go and CommitProgress do what their contracts say (C17 covers the journal's intervals; harness, bounded)", proof_decides=True)
c("C19", ["fastcsv.gcv", "csvfields.gcv"], "proof", DED,
  "ParseRowFast, looksLikeExpirationField, parseRowSlow, ParseLine, splitSemicolonField, getExpiration and decodeBase64Field proved for all inputs: the columns an accepted row is reported with are those encoding/csv reads from the line (its parts between commas when it has no quotes), errors for all rows without five columns or an expiration, the exact parts of a semicolon list in order, the seconds before the first dot. encoding/csv with default settings on one unquoted line is an assumed contract.",
  unproved="the goroutine that cuts the file into lines with bufio.Reader.ReadBytes (order, wholeness and chunking are exercised by the harness, bounded)", proof_decides=True)
c("C22", ["logfetcher.gcv"], "proof", DED,
  "getRawEntries, getRawEntriesInBatches and HttpLogFetcher.fetch proved for all ranges, batch sizes and server responses: the entries handed over on the result channel (contracts on send and close, with ghost state) are those of the range, in order, none twice, none beyond it, all of them unless an error was handed over last or fetching was stopped; the channel is closed at the end. getGzFileChain, getFileInfo and both GetCurrentState: chains of local files are consecutive, maximal and begin at the requested row, a file is listed exactly when its name is a range, and the target state is after the last file of the chain that still fits. The harness runs both fetchers against generated servers and directories.",
  unproved="NextBatch (select), the ingestion goroutines and directory walk of LocalLogFetcher, a concurrent StopFetching (bounded); that a channel delivers what was sent", proof_decides=True)
c("C20", ["records.gcv"], "proof", DED,
  "The field writers (base64 of ID, parent ID or empty, payload; UTC-layout time; RFC 4180 name), recordsForCert/Dirty/Domains/DomainCerts, writeCSV, writeCertCSV, writeRecordsWithStorage (at each call), CreateCsvCerts/Dirty/Domains/DomainCerts and CreateStorage proved for all inputs: whatever the reused storage held before, the file that is closed without an error holds exactly one line per record, in order, with exactly its fields; the storage made by CreateStorage has the separate buffers the writers need; lemma: different names have different fields.",
  unproved="assumed: base64 and time formatting of the standard library (that the instant is in UTC comes from the certificate parser), strings.ContainsAny, open/write/close of noallocs (Write appends the bytes or fails); the callers' preconditions (storage shared with nothing) are proved for CreateStorage's result only, not through the ring caches", proof_decides=True)
c("C01", ["trie_proof.gcv"], "proof", DED,
  "bitIsSet, isWellFormed*, verifyInclusion(C) and Verify(Non)Inclusion(C) proved to accept exactly the proofs whose spec-level climb from the key's leaf (or an empty subtree, or another key's leaf on the same path) equals the root, without panics for any input; lemmas: acceptance of presence and of absence by another leaf for one root and path yields an explicit SHA-256 collision, proven values are unique, compressed and full forms agree. SHA256Hash is proved over an assumed hash.Hash object; sha256 is uninterpreted.",
  unproved="absence by an empty subtree against presence: false of the encoding (known finding); termination of the recursion", proof_decides=True)
c("C02", ["trie_nodes.gcv"], "other", DED,
  "merkleProof, MerkleProofR, MerkleProof and loadChildren proved for every key, depth and batch position over well-formed stored nodes: the audit path has only hashes and default leaves, is no deeper than the tree, and climbs from the proof's leaf (the key's with its value, another key's on the same path, or an empty subtree) exactly to the root, that is, it is what C01 proves VerifyInclusion and VerifyNonInclusion accept; presence is reported exactly for the keys with a value. Compressed proofs, and trees after update, commit and reload histories, are checked by the harness against a reference tree.",
  unproved="the contract of loadBatch (the batch found under a hash is the node of that hash, for well-formed trees) is assumed: that updates keep the stored tree well-formed is bounded (C03, C04); merkleProofCompressed is bounded; SHA-256 uninterpreted; VerifyNonInclusion accepts everything for a nil root", proof_decides=True)
c("C03", ["trie_update.gcv"], "other", DED,
  "Proved: splitKeys divides the pending keys exactly by the level's bit, maybeAddShortcutToKV merges a shortcut leaf into the pending changes at its place in the order (or lets the change replace or delete it) and keeps every other change. Bounded: update histories (insert, overwrite, delete, any grouping, parallel workers) against an independently computed compact sparse Merkle tree, with the caller's buffers compared before and after.",
  unproved="update, updateRight, updateLeft, updateParallel, moveUpShortcut, leafHash, interiorHash (recursive, concurrent, writing shared batches) are outside the verifier's value model: bounded", proof_decides=True)
c("C04", ["trie_nodes.gcv", "nodestore.gcv", "smtdb.gcv"], "other", DED,
  "get, Get and loadChildren proved over well-formed stored nodes: a lookup returns exactly the value of the key in the tree of the root, nothing for a key without one, at every depth and batch position. loadBatch proved to return the cached, else the pending, else the stored batch of that hash and to cache no other; storeNode, deleteOldNode, Commit, commitChangesToDB and the cache functions proved over maps and table rows: a commit stores exactly the pending nodes, removes exactly the removed ones, leaves all other rows alone and leaves nothing pending. The MySQL functions (UpdateTreeNodes, DeleteTreeNodes, RetrieveTreeNode, SaveRoot, LoadRoot) proved over the rows of the tables tree and root. Bounded: histories of update, commit, reload (fresh tree over the same store), no-op updates, deletions and failed updates against a reference map.",
  unproved="that update builds well-formed nodes and passes each of them to storeNode (bounded, C03), and with it the link from the batch found under a hash to the node of that hash; the meaning of the five SQL statements (assumed); caches are contracts over one goroutine at a time (the locks are not modelled)", proof_decides=True, separate=True)
c("C05", ["batch.gcv"], "proof", DED,
  "serializeBatch and parseBatch (with bitSet, bitIsSet) proved for every batch of 31 positions of 33 bytes or nothing: size, bitmap, flag and place of every node; lemma roundtrip: parsing what was serialized gives the same occupied positions, the same bytes and the same flag.",
  unproved="that the trie only hands over batches of that shape (executable contract on generated trees), and the database between the two", proof_decides=True)
c("C06", ["prover.gcv","responder.gcv","domainids.gcv"], "proof", DED,
  "client: VerifyProofByDomain proved to report presence or absence only when the carried value equals the proven leaf and the audit path proves exactly that (on top of the verified proof checking of C01). server: GetProof proved for every name, database answer and tree answer: one answer per name of the hierarchy in order, each with that name, its SHA-256, the IDs the database returned for it, the value SHA-256 of all these IDs sorted and glued, and the tree's proof for that hash with the tree's root; any failing read is an error and no answers; RetrieveDomainCertificatesIDs and RetrieveDomainPoliciesIDs proved to return the IDs and the hash stored for that domain, none for an unknown domain or one without any, a failed read being an error. signTreeHead, ReloadRootAndSignTreeHead, NewMapResponder and SignedTreeHead proved to hand out the signature of the root of the tree that answers.",
  unproved="the meaning of the two SQL texts is assumed; LoadRoot (proved in C04) and the tree's MerkleProof (C02) are assumed contracts here; the client has no way to compare the carried name hash with the name it asked for beyond what the statement says", proof_decides=True)
c("C13", ["treeinput.gcv"], "proof", DED,
  "domainEntriesToSMTInput, updateSMTFromDomainEntries, updateSMTfromDirty, loadRoot and UpdateSMT proved for all inputs: one key per entry, ascending, beside each key the digest of that entry's payload or the deletion marker; for every way of delivering the dirty domains in bundles the stored tree is the previous content changed by exactly the dirty domains, and the stored root is that tree's.",
  unproved="Trie.Update and Commit are assumed contracts here (new content is the old one changed by the given pairs, root is a function of the content: C02, C03 test them against a reference tree); the bundle delivery is the contract proved in C15, restated with ghost state; UpdateSMT may panic (known finding: emptied tree)", proof_decides=True)
c("C09", ["signing.gcv"], "proof", DED,
  "ComputeHashAsSigner, SignAsOwner, SignPolicyCertificateAsIssuer, SignRequestAsIssuer, SignPolicyCertificateTimestamp, SignBytes and the three verification functions (with the constructors that copy a request into a certificate) proved for all certificates, requests, keys and failures: verification succeeds exactly when the recorded signer hash is the hash of the signer without timestamps and issuer signature, its key parses, and the RSA signature covers the serialization of exactly the parts named in the property; signing refuses already signed documents and owners without the capability, changes only signature and signer hash, and only on success; every argument is as before afterwards, on every path. Lemma: what an owner signed with its key verifies.",
  unproved="that the JSON serialization distinguishes different values (assumed contract: a function of the value; the harness changes every signed field of real documents)", proof_decides=True)
c("C14", ["lookup.gcv"], "proof", DED,
  "CheckCertsExist, CheckPoliciesExist with their block functions, and RetrieveCertificatePayloads, RetrievePolicyPayloads, RetrieveCertificateOrPolicyPayloads, repeatStmt proved for lists of any length with repetitions: the arguments, placeholders and query text are exactly those of the assumed meaning of the query, no block exceeds what one answer can hold, answer i says exactly whether ID i is stored, content i is the one stored for ID i (nothing for an unknown one) for every order of rows, and a query, a row or a result set that fails is an error.",
  unproved="the meaning of the SQL texts and of database/sql result sets (assumed contracts: sql.gcv, lookup.gcv); in particular that GROUP_CONCAT keeps the order of the derived table", proof_decides=True)
c("C15", ["dirty.gcv"], "proof", DED,
  "RetrieveDomainEntriesDirtyBundle proved, with everything it calls (normalizeDirtyDomainEntriesCursor, activeDirtyPartitions, distributeDirtyBundleRequests, retrieveDirtyDomainIDsForPartition, retrieveDirtyDomainEntriesPreserveMissing and -Sequential, extractDomainEntries, collectRows, repeatStmt, util.ErrorsCoalesce), for every spread of domains, cursor and bundle size: a bundle holds exactly the dirty domains between the two cursors, each once, each with the encoding of its stored IDs (nothing when it has none), never more than asked for; the next cursor is consistent and never goes back; the end is signalled exactly when every partition is exhausted; any failing read is an error. The workers are verified as a fork-join: each touches its own partition's elements only (checked), so they are executed one after the other at the go statement.",
  unproved="the meaning of the SQL texts and result sets (assumed contracts in sql.gcv); that the dirty table stays as it is between two bundles; RetrieveDomainEntriesDirtyOnes and the loop of the updater over the bundles (bounded, harness)", proof_decides=True, timeout=40)
c("C11", ["storebatch.gcv", "dbwrite.gcv"], "proof", DED,
  "UpdateWithKeepExisting, UpdateWithOverwrite, insertCerts, insertPolicies (and runWhenFalse with both of its callbacks) proved over sets of rows for batches of any size, mask and content: the rows added are exactly those of the elements not stored before, each with its own ID, parent, expiration and payload; the names marked and registered are exactly theirs, under their SHA-256, each associated with exactly its own certificate or policy. UpdateCerts, UpdateDomainCerts, UpdateDomains, InsertDomainsIntoDirty with their CSV writers and loaders, writeToCSV, UpdatePolicies, UpdateDomainPolicies proved to send exactly one record per element with the fields of that element, to the table named. Which elements are stored before is C14.",
  unproved="MySQL: LOAD DATA and INSERT/REPLACE add one row per record or tuple (assumed); storebatch.gcv states the write functions over rows, dbwrite.gcv over records: that FROM_BASE64 undoes base64 is assumed; MapUpdater.updateCertBatch and UpdateCertsLocally pass UnfoldCerts's result (C06) on and are not under contract; certificates whose association is dropped by the domain cache of the bulk-load pipeline are the listed known finding", proof_decides=True)
c("C27", ["pca.gcv"], "proof", DED,
  "NewPolicyCertificateSigningRequest, increaseSerialNumber, canSkipCoolOffPeriod, SignAndLogRequest, signRequest, sendRequestToAllLogServers, sendRequestToLogServer, signFinalPolicyCertificate, sendFinalPolCertToAllLogServers and storeInDb proved for all requests, databases and log server answers: refused outside the CA's validity without using a serial number, otherwise the next number and exactly the requested fields, signed over exactly them; owner-approved only with a registered owner and a verifying signature; an issued certificate has the request's fields, exactly one timestamp per configured log server, each obtained from that server for this certificate, the CA's signature over all of it, and is registered only then.",
  unproved="NewPCA and its configuration file; that serial numbers stay below 2^63; ToJSON, RSA and the log server requester are assumed contracts", proof_decides=True)
NOT_APPLICABLE = {
    "C40": "schedules of goroutines and channels: gocv (like any sequential deductive verifier without a permission logic for channels) has no contracts for concurrent interleavings; a bounded schedule exploration would be a different technique",
    "C41": "the deciding logic is SQL stored procedures executed inside the MySQL server (tools/create_schema.sh), not Go code; the Go side only issues CALL statements, so a contract on Go code could only assume the property",
    "C42": "crash points between database and journal writes need crash semantics of MySQL and the file system, which per-function contracts do not express",
    "C43": "the serialization goes through encoding/json reflection, which is outside the verifier's reach; assumed contracts on it would assume the property itself",
    "C44": "needs histories against a running external Trillian log service; only assumed contracts on the service could be written",
}
