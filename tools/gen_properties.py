#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the source of truth for the wording lives here).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
TR="pkg/mapserver/trie/"
p("C01","Inclusion and absence proofs are sound",
 "A proof of presence is accepted only if hashing the claimed key and value up the audit path, with the direction at each level taken from the key's bits, reproduces the given root; a proof of absence is accepted only if it does the same for an empty subtree, or for another key's leaf that shares the absent key's path bits, or if the given root is absent (the empty tree). A key whose presence verifies against a root and audit path is not proven absent by another key's leaf with the same audit path, the compressed and uncompressed forms agree, and no malformed proof (any lengths, bitmaps or contents) makes verification panic.",
 ["inputs"],"all roots, audit paths, lengths, bitmaps, keys, values (any byte contents and lengths)",
 "tests check a handful of proofs produced by an honest trie and a few truncations; soundness quantifies over every adversarially chosen proof",
 [TR+"trie_merkle_proof.go",TR+"util.go",TR+"trie_tools.go"],
 [("VerifyInclusion/VerifyInclusionC/VerifyNonInclusion/VerifyNonInclusionC",TR+"trie_merkle_proof.go"),("verifyInclusion, verifyInclusionC",TR+"trie_merkle_proof.go"),("bitIsSet, leafHash, interiorHash",TR+"util.go and "+TR+"trie_tools.go")],
 ["trie.VerifyInclusion","trie.VerifyNonInclusion"])
p("C02","Every proof the map tree generates verifies",
 "For any content of the map tree, the proof generated for any key (full or compressed) verifies against the tree's root: presence with the stored value for a stored key, absence for any other key. Compressed and full proofs of one key carry the same information.",
 ["inputs","histories"],"all tree contents and keys, after any update history, in memory, committed or reloaded",
 "tests generate proofs for a few random trees; the claim is about every shape of tree (shortcut leaves at any height, batch boundaries, deletions)",
 [TR+"trie_merkle_proof.go",TR+"trie.go",TR+"trie_tools.go"],
 [("MerkleProof, MerkleProofPast, MerkleProofCompressed",TR+"trie_merkle_proof.go"),("loadChildren/parseBatch",TR+"trie.go, "+TR+"trie_tools.go")],
 ["trie.MerkleProof","trie.MerkleProofCompressed"])
p("C03","The map root depends only on the tree's content",
 "The root computed by any sequence of update calls equals the root of the compact sparse Merkle tree of the resulting key-value content: the same content gives the same root whatever the order, grouping, overwrites and deletions that led to it, and different content gives a different root unless SHA-256 collides. The caller's key and value buffers are not modified.",
 ["inputs","histories"],"all update histories (insert, overwrite, delete, any grouping), any worker interleaving inside one update",
 "tests compare a few fixed histories; canonical form must hold for every history",
 [TR+"trie.go",TR+"util.go"],
 [("update, splitKeys, maybeAddShortcutToKV, moveUpShortcut, maybeMoveUpShortcut, interiorHash",TR+"trie.go"),("leafHash",TR+"trie.go"),("sha256 Hasher","pkg/common/hasher.go")],
 ["trie.Update's returned root"])
p("C04","Map tree lookups return the last written value, also after commit and reload",
 "After any history of updates and commits, a lookup of a key returns the value last written for it, or nothing if it was never written or was deleted. The same holds in a fresh tree opened from the committed root over the same database; uncommitted changes make nothing committed unreadable.",
 ["inputs","histories"],"all histories of update, commit, reload",
 "tests replay a few fixed sequences with small sets; losing a node needs a particular combination of re-created nodes, no-op updates and commits",
 [TR+"trie.go",TR+"trie_cache.go",TR+"trie_tools.go","pkg/db/mysql/smt.go"],
 [("Get/get/loadChildren/loadBatch",TR+"trie_tools.go, trie.go"),("storeNode, deleteOldNode, commitChangesToDB",TR+"trie.go, trie_cache.go")],
 ["trie.Get","trie.Commit","DBConn.UpdateTreeNodes / DeleteTreeNodes"],
 [("removedNode/updatedNodes","nodes scheduled for deletion/insertion at commit",TR+"trie_cache.go")])
p("C05","Tree node batches survive storage unchanged",
 "A batch of tree nodes read back from its stored serialization is equal to the batch that was serialized: every occupied position with its bytes, every empty position empty, and the shortcut flag preserved.",
 ["inputs"],"all batches of 31 positions whose occupied positions hold 33-byte entries, with every pattern of empty positions",
 "tests round-trip one or two concrete batches; there are 2^30 presence patterns and arbitrary contents",
 [TR+"trie_cache.go",TR+"trie.go"],
 [("serializeBatch",TR+"trie_cache.go"),("parseBatch",TR+"trie.go"),("bitSet, bitIsSet",TR+"util.go")])
p("C06","Map server answers bind the queried names to their payload and proof",
 "For a queried domain, the map server returns one answer per name in the queried domain's hierarchy, each carrying that name, the SHA-256 of that name, its stored certificate and policy IDs, a value that is the SHA-256 of all those IDs sorted and concatenated, and the tree's proof for that hash against the tree's current root. Client-side verification reports presence only if the carried value equals the proven leaf value and the audit path proves that leaf for the carried name hash under the carried root, and absence only if the absence proof holds for the carried name hash; an answer whose value differs from the proven one is an error.",
 ["inputs"],"all queried names, stored payloads and answers (honest or adversarial)",
 "tests verify a few honest answers; binding quantifies over every payload and every mangled answer",
 ["pkg/mapserver/prover/prover.go","pkg/mapserver/responder/responder.go",TR+"trie_merkle_proof.go"],
 [("VerifyProofByDomain","pkg/mapserver/prover/prover.go"),("RetrieveDomainCertificatesIDs, RetrieveDomainPoliciesIDs","pkg/db/mysql/certs.go, pkg/db/mysql/policies.go"),("GetProof: construction of the domain entry and its value","pkg/mapserver/responder/responder.go")],
 ["prover.VerifyProofByDomain","responder.GetProof"])
p("C07","Certificate and policy ID lists have one canonical encoding",
 "The glued encoding of a list of IDs is its IDs in ascending byte order, 32 bytes each and with the same multiplicities, so it depends only on which IDs the list holds; the digest of a list is the SHA-256 of that encoding, and absent for the empty list. Splitting an encoding returns exactly those IDs in order and gluing them unsorted gives back the same bytes. The caller's list is not modified.",
 ["inputs"],"all lists of IDs of any length, order and multiplicity; all encodings of a multiple of 32 bytes",
 "tests use fixed short lists; the canonical encoding is what the tree's leaf value binds, for every list",
 ["pkg/common/ids.go"],
 [("SortIDsAndGlue, SortIDsAndHash, IDsToBytes, BytesToIDs","pkg/common/ids.go")],
 ["common.SortIDsAndGlue","common.BytesToIDs"])
p("C08","Policy attributes decide every subdomain as specified",
 "Evaluating a domain against a policy issued for a domain answers not-applicable unless the domain is a proper subdomain at a label boundary (one trailing dot ignored on either name); otherwise the label directly below the policy's domain decides: an exact entry in the allowed, disallowed, excluded lists (in that order), else a wildcard entry (same order), else allowed. Validation of attributes fails exactly when the allowed-CA list has a duplicate or one label occurs twice among the three subdomain lists.",
 ["inputs"],"all names and all attribute lists",
 "tests try a table of names; the decision must hold for every name and every combination of lists",
 ["pkg/common/policies.go"],
 [("CheckDomainValidity, ValidateAttributes","pkg/common/policies.go")],
 ["PolicyAttributes.CheckDomainValidity"])
p("C09","Policy certificate signatures bind all signed fields and change nothing else",
 "An owner or issuer signature verifies only if the signer's certificate hash equals the one recorded in the signed document and the RSA signature covers the canonical serialization of all its other fields (owner signatures exclude only the issuer's fields, the timestamps and the signature itself; issuer signatures exclude only the issuer signature). Signing requests without the owner capability, or over an already signed document, are refused. Signing changes only the signature and signer-hash fields and only on success; verification and hashing leave every argument as it was, on success and on failure.",
 ["inputs","fault_sequences"],"all policy certificates and requests, keys, and failures of serialization or the signing primitive",
 "tests sign and verify a few random documents on the success path; frame and rejection conditions hold for every document and error path",
 ["pkg/common/crypto/crypto.go","pkg/common/policies.go"],
 [("SignAsOwner, SignRequestAsIssuer, SignPolicyCertificateAsIssuer, VerifyOwnerSignature, VerifyOwnerSignatureInPolicyCertificate, VerifyIssuerSignature, ComputeHashAsSigner","pkg/common/crypto/crypto.go")],
 ["crypto.Sign*","crypto.Verify*"])
p("C10","Issuer constraints confine issued policy certificates",
 "Checking a child policy certificate against its issuer's constraints succeeds exactly when the child's validity period lies within the issuer's (equal bounds included) and the child's domain equals the issuer's domain or is one of its subdomains at a label boundary; an issuer without a domain may issue for any domain.",
 ["inputs"],"all pairs of certificates: any times and any domain strings",
 "tests cover a handful of pairs",
 ["pkg/common/crypto/crypto.go"],[("VerifyIssuerConstraints","pkg/common/crypto/crypto.go")],["crypto.VerifyIssuerConstraints"])
p("C11","Every stored certificate keeps its own payload, parent, expiration and names",
 "When a batch of certificates is stored, each certificate not yet present is written with its own payload, its own parent and its own expiration, whichever others in the batch are already present; certificates already present are not written again. Every name of every newly written certificate, and no other name, is registered as a domain under the SHA-256 of the name, associated with exactly that certificate and marked for update; the same holds for newly stored policies and the domain they are for. When a step fails, no certificate (policy) is left stored without its names (domain).",
 ["inputs","histories"],"all batches: any lengths, any subset already present, any names, repeated names",
 "tests insert a few batches and never mix present and absent certificates with different expirations",
 ["pkg/mapserver/updater/updater.go","pkg/util/certificate.go"],
 [("UpdateWithKeepExisting, UpdateWithOverwrite, insertCerts, runWhenFalse","pkg/mapserver/updater/updater.go"),("UpdateCertsLocally","pkg/mapserver/updater/updater.go")],
 ["db.Conn.UpdateCerts, InsertDomainsIntoDirty, UpdateDomains, UpdateDomainCerts"])
p("C12","Unfolding a chain links every certificate to its own issuer",
 "Unfolding certificates with their chains yields, level by level, every leaf and every chain element with its own SHA-256 ID, with the ID of the next element in its chain as parent and no parent for the last one, and with names only for the leaves, leaves first. Unfolding one certificate whose chain is partly known already stops at the first already-known ancestor, and still names that ancestor as the parent.",
 ["inputs"],"all lists of leaves and chains of any length (also empty chains), any prefix of known ancestors",
 "tests use two or three fixed chains",
 ["pkg/util/certificate.go"],[("UnfoldCerts, UnfoldCert, ExtractNames, ExtractExpirations","pkg/util/certificate.go")],["util.UnfoldCerts","util.UnfoldCert"])
p("C13","Tree input built from domain entries is sorted, paired and complete",
 "Turning a set of changed domain entries into tree input yields exactly one key per entry, keys in ascending order, and beside each key the SHA-256 of that same entry's payload; an entry without any remaining payload is turned into a deletion. Updating the tree from the dirty domains therefore leaves the stored root equal to the root of the previous content changed by exactly those entries, however the entries are split in bundles.",
 ["inputs"],"all sets of domain entries in any order",
 "tests use small sets; a mispaired key and value corrupts the root silently",
 ["pkg/mapserver/updater/updater.go"],[("domainEntriesToSMTInput","pkg/mapserver/updater/updater.go")],["keys and values handed to trie.Update"])
p("C14","Presence checks against the database are exact for any number of IDs",
 "Asking which of n certificates (or policies) are stored returns n answers, the i-th true exactly when the i-th ID is stored, for every n and with repeated IDs. Retrieving stored payloads by ID returns each payload at the position of its ID whatever order the database returns the rows in. A failing query, also one that fails halfway, is an error and never an incomplete answer.",
 ["inputs"],"all lists of IDs of any length, any subset stored, any row order returned by the database",
 "tests use a few IDs; the code works in blocks, so sizes around block boundaries matter",
 ["pkg/db/mysql/certs.go","pkg/db/mysql/policies.go"],
 [("CheckCertsExist/checkCertsExist, CheckPoliciesExist","pkg/db/mysql/certs.go, policies.go")],["db.Conn.CheckCertsExist"])
p("C15","Every dirty domain is read exactly once, in bundles over all partitions",
 "Reading the dirty domains bundle after bundle, each call continuing at the cursor returned by the previous one, hands out every dirty domain exactly once with its payload (an empty one when it has none), and nothing else, for any number of domains, any spread over the partitions and any bundle size; no bundle exceeds the requested size, and the end is signalled exactly when no domain is left or with an empty bundle. A bundle's budget is shared among the partitions still active and is never exceeded.",
 ["inputs","configurations"],"all spreads of domains over the partitions, all bundle sizes",
 "tests use one or two sizes that divide evenly or fit in one page",
 ["pkg/db/mysql/mysql.go","pkg/mapserver/updater/updater.go"],[("RetrieveDomainEntriesDirtyBundle, activeDirtyPartitions, distributeDirtyBundleRequests, normalizeDirtyDomainEntriesCursor, retrieveDirtyDomainEntriesPreserveMissing","pkg/db/mysql/mysql.go"),("updateSMTfromDirty","pkg/mapserver/updater/updater.go")],["db.Conn.RetrieveDomainEntriesDirtyBundle"])
p("C16","Sharding sends every identifier to exactly one valid shard",
 "Partitioning an ID by the most (or least) significant bits of its first (or last) byte returns the value of exactly those bits for 0 to 8 bits, so the result is always below two to the number of bits and depends only on those bits; by most significant bits it preserves ID order. Computing the number of bits needed for a shard count and the integer logarithm gives the exact mathematical result, and the updater manager sends every certificate and domain to an existing worker, the same one for the same ID, for every accepted number of workers.",
 ["inputs"],"all 256-bit IDs, all bit counts from 0 to 8, all 64-bit shard counts",
 "tests sample single values; an index out of range or a wrong shard shows only for particular byte patterns",
 ["pkg/mapserver/updater/domainWorker.go","pkg/mapserver/updater/manager.go","pkg/db/mysql/mysql.go","pkg/util/math.go"],
 [("PartitionByIdMSB, NumBitsForPartitionCount","pkg/db/mysql/mysql.go"),("Log2","pkg/util/math.go")],["mysql.PartitionByIdMSB"])
p("C17","The ingest journal is an exact, minimal record of completed file ranges",
 "After any sequence of additions in any order, a range is reported completed exactly when every number in it was covered by added ranges merged over touching neighbours, and the recorded list is sorted, non-overlapping and minimal, also at the largest representable numbers. Recording completion for one directory does not affect another one of a different name, and reading a written record back gives the same ranges. Pending files are exactly the listed files whose range is not completed.",
 ["inputs","histories"],"all sequences of inclusive ranges over the full machine-integer domain",
 "tests add a few ranges; canonical interval merging quantifies over all orders, overlaps and extreme bounds",
 ["cmd/ingest/journal/journal.go","cmd/ingest/journal/list_files.go"],
 [("appendInterval, canMerge, mergeIntervals, containsCompletedInterval, addCompletedInterval, normalizeCompletedIndices, PendingFiles, CommitProgress, CommitCTLogSize, parseFileInterval","cmd/ingest/journal/journal.go")],["journal file","Journal.PendingFiles"])
p("C18","Ingestion covers every pending file exactly once, in order, in bounded batches",
 "Splitting the pending files into batches preserves their order, loses and repeats none, and every batch but the last has the configured size; a batch is recorded as completed only after it and its follow-up phases succeeded, and nothing after a failing batch is ingested or recorded. For each batch the follow-up phases run only after its ingestion succeeded, in the order coalesce, update tree, and each only if requested.",
 ["inputs","fault_sequences"],"all numbers of files, batch sizes, and failures of any phase or batch",
 "tests run a few files without faults; order and recording must hold for every failure point",
 ["cmd/ingest/run.go","cmd/ingest/main.go"],[("ingestFilesInBatches, runIngest","cmd/ingest/run.go")],["calls to the processing phases and to the journal"])
p("C19","The fast CSV reader returns the same records as the standard one",
 "Whenever the fast row parser accepts a row it returns the same certificate, chain and expiration columns as the standard CSV reader, and it rejects with an error any row it cannot parse that way instead of returning other contents; rows and lines are handed out in order and whole, for every chunking of the underlying reads. Splitting a semicolon-separated field returns the exact substrings, in order.",
 ["inputs"],"all unquoted CSV texts (any lengths, empty fields, missing final newline, CRLF) and all read chunkings",
 "tests parse a few small files; buffer refills happen at particular offsets only",
 ["cmd/ingest/fastcsv/fastcsv.go","cmd/ingest/csvSplitWorker.go","cmd/ingest/toChainWorker.go"],[("Reader.Read","cmd/ingest/fastcsv/fastcsv.go"),("splitSemicolonField","cmd/ingest/toChainWorker.go")],["fastcsv.Reader"])
p("C20","Bulk-load records describe exactly their certificate or domain",
 "A CSV record produced for bulk loading carries the exact ID, parent ID (or the empty field the loader turns into null), expiration instant in UTC and payload of its certificate, or the exact ID and name of its domain, encoded losslessly also for names with special characters, and each produced file holds every record of its batch once, also when record storage is reused from a previous batch.",
 ["inputs"],"all certificates and domains, also when record storage is reused from a previous batch",
 "tests write a few records with fresh storage; stale bytes need a longer previous record",
 ["pkg/mapserver/updater/csv.go"],[("recordsForCert, recordsForDirty, recordsForDomains, recordsForDomainCerts and the ...WithStorage helpers","pkg/mapserver/updater/csv.go")],["the CSV file handed to the database"])
p("C21","Domain names decompose into exactly their registrable hierarchy",
 "Parsing a valid domain name (a leading wildcard or www label removed first) yields exactly the names from its registrable domain up to the name itself, each one label longer than the previous one, and nothing else; an invalid name, a public suffix or a name with a wildcard below the first label is rejected. Of a certificate's names the invalid ones are dropped; up to four distinct valid ones are taken as they are, more are summarised by the longest common suffix of each registrable domain.",
 ["inputs"],"all domain name strings",
 "tests parse a table of names",
 ["pkg/domain/domain.go"],[("ParseDomainName, SplitE2LD, IsValidDomain, findLongestSuffix","pkg/domain/domain.go")],["domain.ParseDomainName"])
p("C22","Log download covers the requested range once, in order, and never more",
 "Fetching entries start to end from a log returns exactly those entries, in order, once each, however the server splits its responses, and stops at a failure with only the entries before it; entries beyond those asked for are never taken, an empty response is an error, and the number reported is exactly the entries received. The local file chain follows consecutive ranges only and every row of its files is delivered once, in order, or counted as expired.",
 ["inputs","fault_sequences"],"all ranges, batch sizes, server response splits and failures; all sets of file ranges",
 "tests use a fixed log with full responses",
 ["pkg/mapserver/logfetcher/httplogfetcher.go","pkg/mapserver/logfetcher/locallogfetcher.go"],
 [("getRawEntriesInBatches, getRawEntries","pkg/mapserver/logfetcher/httplogfetcher.go"),("getGzFileChain, getFileInfo","pkg/mapserver/logfetcher/locallogfetcher.go")],["LogFetcher.ReturnNextBatch"])
p("C23","Configured durations and times of day are read and scheduled exactly",
 "A duration text is one whole number followed by one unit and parses to exactly that many units; malformed or unrepresentable text is an error, and a formatted duration parses back to the same duration. The next occurrence of a time of day is the earliest instant after now having exactly that time of day in UTC, hence at most a day ahead.",
 ["inputs"],"all duration texts and values, all times of day and all instants",
 "tests use a table of texts",
 ["pkg/util/duration.go","pkg/util/time_wrap.go","pkg/util/time.go"],[("ParseDuration, FmtDuration","pkg/util/duration.go"),("NextTimeOfDay","pkg/util/time_wrap.go")],["util.ParseDuration"])
p("C24","Slice helpers keep exactly the elements they should",
 "Deduplicating parallel slices keeps exactly one element per distinct key, all slices at equal length and with corresponding elements kept together; removing positions keeps exactly the elements at the other positions (those that do not fit into the shorter slice fill the gaps); resizing keeps the common prefix and fills the rest; sorting in place yields an ordered permutation and touches nothing else.",
 ["inputs"],"all slices, keys, and sets of distinct in-range positions",
 "tests use a few fixed slices; dropped or duplicated elements need particular patterns of duplicates at the end",
 ["pkg/util/deduplicateSlice.go","pkg/util/slice.go","pkg/util/sort.go"],[("makeUnique","pkg/util/deduplicateSlice.go"),("RemoveElementsFromSlice, RemoveElemFromSlice, ResizeSlice","pkg/util/slice.go"),("Qsort","pkg/util/sort.go")],["util.DeduplicateSlice"])
p("C25","The presence cache contains exactly the IDs added to it",
 "After any sequence of additions the presence cache reports an ID present exactly when it was added before, its size is the number of distinct IDs added, and its internal copies agree between operations.",
 ["inputs","histories"],"all sequences of additions and lookups, with repetitions",
 "tests add a few IDs; a lost ID in only one of the copies shows only at particular moments",
 ["pkg/cache/presence_cache.go"],[("AddIDs, Contains, Size","pkg/cache/presence_cache.go")],["cache.Contains"])
p("C26","Recycled buffers are not handed out again while still in flight",
 "A ring of reusable buffers hands out its elements cyclically, so an element comes back only after all the others were handed out since; taking the current element, advancing and rotating agree with each other for every ring size. Rotating the three-buffer ring of the updater's workers empties only the buffer it moves to, and adding an element changes only the current buffer.",
 ["inputs","histories"],"all ring sizes and operation sequences",
 "tests rotate a small ring once",
 ["pkg/util/noallocs/ringcache.go","pkg/mapserver/updater/baseworker.go"],[("RingCache.Current/Next/Rotate","pkg/util/noallocs/ringcache.go"),("ringCache.rotate","pkg/mapserver/updater/baseworker.go")],["noallocs.RingCache"])
p("C27","The policy CA issues within its own validity and with unique serial numbers",
 "A signing request is created only if its validity period lies within the CA's own, carries exactly the requested fields, and gets a serial number larger than every earlier one; a refused request consumes none. A request signed by an owner unknown to the CA, or with a bad signature, never counts as owner-approved; issued certificates carry one timestamp per configured log server.",
 ["inputs","fault_sequences"],"all requests and all log server failures",
 "tests issue a couple of certificates on the success path",
 ["pkg/pca/pca.go"],[("NewPolicyCertificateSigningRequest, canSkipCoolOffPeriod, SignAndLogRequest","pkg/pca/pca.go")],["pca.NewPolicyCertificateSigningRequest"])
p("C28","Combining errors loses none and invents none",
 "Combining a list of errors gives no error exactly when there is nothing to report, and otherwise a flat collection in which every present error (or every member of an already combined one) is found by its message, in order, without two members of the same message and with no other member.",
 ["inputs"],"all lists of present, absent and already combined errors",
 "tests combine two or three errors",
 ["pkg/util/errors.go"],[("ErrorsCoalesce","pkg/util/errors.go")],["util.ErrorsCoalesce"])
p("C29","Log verification accepts only proven inclusion and append-only growth",
 "Verifying an entry against a trusted log root succeeds only when one of the supplied proofs reconstructs that root for the entry, and succeeds when the first proof that is not merely for another root does; a new root is accepted only with a valid consistency proof from the trusted one unless the trusted log is empty, and absent roots are refused.",
 ["inputs"],"all roots, leaf hashes and proofs",
 "tests verify a few recorded proofs",
 ["pkg/logverifier/verifier.go"],[("VerifyInclusionByHash, VerifyRoot, VerifyInclusionWithPrevLogRoot","pkg/logverifier/verifier.go")],["logverifier.VerifyInclusionByHash"])
p("C30","The recorded position of a log never runs ahead of what was stored",
 "An update cycle takes every configured log once, starting each where the size last recorded for it says and aiming at the size the log reports. The recorded size of a log and its tree head change together and only to a pair that log reported, and only after every entry from the start up to that size was handed out and stored (entries the fetcher excludes count as handed out), each with its chain, its expiration and its names; no other log's record changes. Any failure of a log or of the database is reported by the cycle (except of the query that only serves to print progress) and leaves the record where it was or at a size that is completely stored, and a later cycle without failures ends with every entry up to the reported sizes stored, even those a failed batch stored halfway: a certificate or policy that is already stored is skipped, so it is stored only after its names are. The payloads of changed domains are computed before the tree is updated, and the marks of changed domains are dropped only once the stored tree has their current content; at every point the stored root is one whose nodes are all stored.",
 ["histories","fault_sequences"],"all numbers of logs, sizes, batch splits and exclusions, all failures of fetchers and database at any call, all sequences of cycles",
 "tests run a cycle or two against a healthy database; a record that runs ahead loses entries silently and for ever",
 ["pkg/mapserver/mapserver.go","pkg/mapserver/updater/updater.go","pkg/mapserver/logfetcher/logfetcher.go"],
 [("update, updateCerts, prune","pkg/mapserver/mapserver.go"),("StartFetchingRemaining, startNextFetcher, NextBatch, UpdateNextBatch, updateCertBatch, insertCerts","pkg/mapserver/updater/updater.go"),("LastCTlogServerState, UpdateLastCTlogServerState","pkg/db/mysql/certs.go")],
 ["db.Conn.UpdateLastCTlogServerState","db.Conn.CleanupDirty","logfetcher.Fetcher.StartFetching"])
p("C40","Pipelines deliver every item exactly once under every schedule",
 "Every item produced by a source of the processing pipeline is delivered to exactly one worker of each following stage and reaches the sink exactly once, and an error stops the pipeline and is reported, under every interleaving of its goroutines.",
 ["schedules"],"all interleavings of sources, stages and sinks",
 "tests observe a few schedules",
 ["pkg/pipeline/pipeline.go","pkg/pipeline/stage.go"],[("Stage.processThisStage","pkg/pipeline/stage.go")])
p("C41","Domain payloads in the database are the union over their certificates and chains",
 "Coalescing gives each dirty domain the sorted set of all non-expired certificates naming it together with their chains, and pruning removes exactly the expired ones and marks the affected domains dirty.",
 ["histories"],"all histories of insertions and prunings",
 "tests use small databases",
 ["tools/create_schema.sh","pkg/db/mysql/dirty.go"],[("stored procedures calc_several_domain_payloads, prune_expired","tools/create_schema.sh")])
p("C42","An interrupted update can be resumed without losing work",
 "A crash at any point during ingestion or tree update leaves the database and journal in a state from which running again reaches the same result as an uninterrupted run.",
 ["crash_points"],"all crash points between database and journal writes",
 "tests do not crash the process",
 ["cmd/ingest/run.go","cmd/ingest/journal/journal.go","pkg/mapserver/updater/updater.go"],[("journal writes, dirty table cleanup","cmd/ingest/run.go")])
p("C43","Policy documents survive serialization unchanged",
 "Serializing any policy document or list of them and reading it back gives a document equal to the original in every field, of the same kind, in the same order.",
 ["inputs"],"all policy documents",
 "tests round-trip randomly generated documents of fixed shape",
 ["pkg/common/json.go","pkg/common/policies.go"],[("ToJSON, FromJSON","pkg/common/json.go")])
p("C44","The policy log's entries stay queryable and consistent for its clients",
 "Every policy entry accepted by the log service is eventually integrated, provable against every later signed root, and returned by queries in log order.",
 ["histories"],"all histories of additions against a running log service",
 "integration tests need the external service",
 ["pkg/policylog/client/logclient.go"],[("AddLeaves, FetchInclusions","pkg/policylog/client/logclient.go")])
json.dump(None,open('/dev/null','w'))
out=P
with open('/verif/properties.jsonl','w') as f:
    for d in out: f.write(json.dumps(d)+"\n")
