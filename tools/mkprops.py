#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so the long lines stay reviewable).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook,
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

prop('C01','Commit never loses a recorded certificate',
 "At every point of a commit, including an abrupt stop or an I/O failure anywhere inside it, every serial entry that was in the cache when the commit began is still in the cache or its serial number is in the stored list of its issuer and expiry bin, and no serial already stored is lost except by expiry. The stored coverage metadata is only replaced after every entry it covers has been stored, and a commit that cannot store a bin fails instead of publishing the new coverage.",
 ['inputs','crash_points','fault_sequences'],
 "For every content of the cache and of the storage directory, every sequence of I/O and cache errors, and every point at which the process stops: the union of cache and storage never shrinks, and the coverage file on disk never claims more than storage holds.",
 "The tests run a handful of successful commits against a mock cache; none injects a failed write, flush, rename or removal, stops between two steps, or lists the same bin twice.",
 ['go/storage/certdatabase.go','go/storage/types.go'],
 [('merge cached and stored serials into a temporary file, atomically replace, and only then remove from cache','go/storage/certdatabase.go moveOneBinOfCachedSerialsToStorage'),
  ('coverage metadata captured first and published after all bins','go/storage/certdatabase.go Commit, moveCachedSerialsToStorage')],
 ['serial files under <storage>/serials','<storage>/ct-logs.json','cache sets serials::<date>::<issuer>'])

prop('C02','Only entries inside the claimed log coverage become known serials',
 "A commit moves a cached entry into the stored serial list only when the entry's log is among the logs whose coverage is being published and its timestamp is at most that log's newest verified timestamp minus its maximum merge delay (zero when that would be negative); every entry at or below that cutoff is moved. Entries of unknown logs and entries newer than the cutoff stay in the cache, and an entry without log information counts as covered. If a log is listed more than once, the cutoff of one of its listed states is used.",
 ['inputs'],
 "For every entry byte string, every list of log states (any log id encoding, delay and timestamp) and every bin content.",
 "Tests check a few fixed timestamps around one cutoff; they cannot cover all timestamp/delay combinations, malformed ids, several logs, or every entry length.",
 ['go/types.go','go/storage/types.go','go/storage/certdatabase.go'],
 [('coverage cutoff per log','go/types.go CTLogState.CoverageCutoff, NewCoverageCutoffMap, KeyID'),
  ('per-entry coverage decision','go/storage/types.go SerialCacheEntry.IsCovered'),
  ('selection of entries to move','go/storage/certdatabase.go moveOneBinOfCachedSerialsToStorage')],
 ['stored serial files and remaining cache entries after a commit'])

prop('C03','Cache entries keep timestamp, log and serial exactly',
 "The entry recorded for a certificate decodes to exactly the timestamp, log id and serial number bytes it was built from, so entries of different certificates, logs or timestamps never coincide and no serial is altered or truncated. It is filed under the set named by the certificate's expiry hour and issuer, with that hour as the expiry time.",
 ['inputs'],
 "For every 64-bit timestamp, every 32-byte log id, every serial byte string of any length, every expiry time and issuer.",
 "Tests build a couple of entries with short fixed serials; byte order, empty and long serials, and all timestamp bytes are not enumerated.",
 ['go/storage/types.go','go/storage/certdatabase.go','go/types.go'],
 [('entry layout: 8-byte timestamp, 32-byte log id, serial','go/storage/types.go NewMember'),
  ('decoding','go/storage/types.go AsSerial, IsCovered'),
  ('key of the bin','go/storage/types.go NewSerialCacheKey, go/storage/certdatabase.go GetSerialCacheKey, PrepareSetMember')],
 ['key, value and expiry handed to the cache'])

prop('C04','A commit needs the lock, writable storage and matching epochs',
 "A commit changes storage or cache only if storage is writable, the caller's token holds the commit lock, and the cache epoch is exactly one ahead of the storage epoch (or both are zero); otherwise it fails and leaves both unchanged. A commit that reports success with both epochs written leaves the cache exactly one epoch ahead of storage, and when the epochs do not match at start-up the log positions in the cache are replaced by those recorded in storage and the cache epoch is set to the storage epoch plus one, last.",
 ['inputs','histories','fault_sequences'],
 "For every pair of epochs, every lock holder and token, every stored log state list and every failure of an intermediate cache or file operation.",
 "Tests exercise a few epoch values in one happy order; arbitrary epoch pairs, failures between the two epoch writes and partial restores are not sampled.",
 ['go/storage/certdatabase.go','go/storage/rediscache.go'],
 [('guards at the start of commit','go/storage/certdatabase.go Commit'),
  ('consistency check and restore','go/storage/certdatabase.go EnsureCacheIsConsistent, go/storage/rediscache.go Restore'),
  ('lock ownership','go/storage/rediscache.go HasCommitLock, AcquireCommitLock, ReleaseCommitLock')],
 ['return value of a commit','<storage>/epoch and the epoch and lock keys of the cache'])

prop('C05','Only expired serial lists are ever deleted',
 "Storage clean-up deletes a serial list only if the hour or day named by its expiry label is over, counted in milliseconds, and deletes every such list; lists of certificates that can still be valid, and files whose names it does not understand, are kept. The label of a certificate's expiry bin denotes the hour that contains its expiry, and reading a label back gives the same bin.",
 ['inputs'],
 "For every current time, every expiry time, every date or hour label and every directory content.",
 "Tests use a few fixed dates; boundary instants, every label form and arbitrary directory contents need quantification.",
 ['go/types.go','go/storage/certdatabase.go'],
 [('expiry label arithmetic','go/types.go NewExpDateFromTime, NewExpDate, IsExpiredAt, ID'),
  ('clean-up','go/storage/certdatabase.go removeExpiredSerialsFromStorage')],
 ['files under <storage>/serials after a commit'])

prop('C06','Stored serial lists read back as the written set, or an error is reported',
 "A serial list written without an error reads back as exactly the serials written, in order, for the same expiry bin, and a list that was not written completely is reported as an error by the writer. Merging lists yields each distinct serial exactly once and drops none, and reading a non-empty file whose first line is not the expected expiry line fails.",
 ['inputs','fault_sequences'],
 "For every list of serials (any bytes, any length up to 32,000 bytes, duplicates; the reader reports an error for longer lines), every expiry time and every failure of the underlying writer, including one that only shows when buffered data is flushed.",
 "Tests write small lists to files that never fail; flush errors, arbitrary byte strings and duplicate patterns are outside what they sample.",
 ['go/storage/certdatabase.go','go/types.go'],
 [('writer','go/storage/certdatabase.go WriteSerialList, serialListExpiryLine'),
  ('reader','go/storage/certdatabase.go ReadSerialsFromStorage'),
  ('merge','go/types.go SerialList.Dedup')],
 ['bytes of a serial file; error of the writing call'])

prop('C07','Listing bins yields every bin of every issuer exactly once',
 "Listing the bins present in the cache or in storage groups them by issuer so that every well-formed bin name is listed under its issuer exactly once however often the scan reports it, and nothing is listed that is not present. A name that does not have three parts makes the listing fail, and one with an unparsable date is skipped alone.",
 ['inputs','schedules'],
 "For every sequence of bin names delivered by the scan, in every order and with every repetition.",
 "Tests list a few distinct names from a mock that never repeats a key, while a real scan may repeat any of them.",
 ['go/storage/certdatabase.go'],
 [('grouping by issuer','go/storage/certdatabase.go GetIssuerAndDatesFromChannel'),
  ('producers','go/storage/certdatabase.go GetIssuerAndDatesFromCache, GetIssuerAndDatesFromStorage')],
 ['the list of (issuer, expiry bins)'])

prop('C08','A revocation list is published only when complete and authenticated',
 "The list of revoked serials of an issuer is published only if every CRL known for that issuer was obtained, carried a valid signature by that issuer's certificate and was decoded completely; then it contains every entry of all of those CRLs with its reason and nothing else. If any of them failed, no list is published for that issuer in that run, the failure is recorded in the audit, and a list that could not be written completely is never reported as stored.",
 ['inputs','fault_sequences'],
 "For every set of issuers and CRLs, every combination of CRLs failing to download, verify or decode, in every order, and every write failure.",
 "Tests process one or two good CRLs; combinations of failing and succeeding CRLs, their order, and failing writes are not enumerated.",
 ['go/cmd/aggregate-crls/aggregate-crls.go','go/cmd/aggregate-crls/crl-auditor.go'],
 [('per-issuer aggregation','go/cmd/aggregate-crls/aggregate-crls.go aggregateCRLWorker'),
  ('signature check','go/cmd/aggregate-crls/aggregate-crls.go loadAndCheckSignatureOfCRL'),
  ('decoding','go/cmd/aggregate-crls/aggregate-crls.go processCRL'),
  ('output','go/cmd/aggregate-crls/aggregate-crls.go StoreRevokedCertificateList')],
 ['files in the revoked directory; audit entries'])

prop('C09','Revocation reasons are extracted exactly or the CRL is refused',
 "For every revoked entry of a CRL the recorded serial is the entry's serial bytes and the recorded reason is the value of its single reason extension, or zero if it has none. An entry with a repeated or undecodable reason extension, or a reason that does not fit one byte, makes processing of the whole CRL fail rather than being dropped, truncated or defaulted.",
 ['inputs'],
 "For every revoked-certificate entry: any number and order of extensions, any extension content, any reason integer, any serial bytes.",
 "Tests decode a few well-formed CRLs; repeated, negative, oversized and malformed reasons at arbitrary positions are not sampled.",
 ['go/types.go','go/cmd/aggregate-crls/aggregate-crls.go'],
 [('reason extraction','go/types.go RevokedCertificateWithRawSerial.Reason, SerialAndReason'),
  ('propagation of failures','go/cmd/aggregate-crls/aggregate-crls.go processCRL')],
 ['serial and reason list, or error'])

prop('C10','A downloaded file replaces the old one only after verification',
 "A verified download changes the destination file only by atomically moving into place a completely verified new copy; after any failure the destination is untouched. It reports success only if the destination now holds content that passed verification, reports failure whenever it does not, and never leaves its temporary file behind.",
 ['inputs','fault_sequences','crash_points'],
 "For every outcome of the download, of each verification, of the rename and of the clean-up, and every prior state of the destination and temporary file.",
 "Tests exercise a few scripted server replies; combinations of failing rename, stale temporary files and invalid old copies are not covered.",
 ['go/downloader/verifying-downloader.go','go/downloader/downloader.go','go/cmd/aggregate-crls/aggregate-crls.go'],
 [('download to a temporary path, verify, rename, fall back','go/downloader/verifying-downloader.go DownloadAndVerifyFileSync'),
  ('retry loop','go/downloader/downloader.go DownloadFileSync'),
  ('caller','go/cmd/aggregate-crls/aggregate-crls.go crlFetchWorkerProcessOne')],
 ['destination file, temporary file, returned flag'])

prop('C11','Downloaded log entries are accepted only if they hash to the proven subtree',
 "A range of log entries is accepted only if exactly as many entries as the range holds were consumed and the RFC 6962 Merkle tree hash of those entries, in order, equals the root claimed for the range; a root of the wrong length, or any missing, extra, reordered or altered entry, is refused. This holds for ranges of every size, not only powers of two.",
 ['inputs'],
 "For every range size from one to 2^63, every sequence of entries and every claimed root.",
 "Tests cannot enumerate tree sizes; correctness for all sizes rests on the stack-of-subtrees argument, which needs induction.",
 ['go/cmd/ct-fetch/rfc6962.go'],
 [('incremental tree hash','go/cmd/ct-fetch/rfc6962.go CtLogSubtreeVerifier.Consume, rfc6962LeafHash, rfc6962PairHash'),
  ('acceptance','go/cmd/ct-fetch/rfc6962.go CtLogSubtreeVerifier.CheckClaim'),
  ('split point','go/cmd/ct-fetch/rfc6962.go CtLogSubtree.Midpoint, Size')],
 ['result of checking a claim'])

prop('C12','Consistency proofs are mapped to exactly the right ranges',
 "Annotating a consistency proof between two tree sizes yields disjoint ranges that together cover every entry of the larger tree (except that an old tree whose size is a power of two is left out as already known), each being a node of the larger tree, in the order RFC 6962 gives the hashes, and each carrying the hash at its position. A proof of any other length, or between sizes that are not increasing, is refused.",
 ['inputs'],
 "For every pair of tree sizes with the old one at least one, up to 2^63, and every list of hashes.",
 "There are quadratically many size pairs and the traversal depends on the bit patterns of both sizes; tests can only try a few.",
 ['go/cmd/ct-fetch/rfc6962.go'],
 [('walk from the root to the old last leaf','go/cmd/ct-fetch/rfc6962.go consistencyProofToSubtrees'),
  ('split point','go/cmd/ct-fetch/rfc6962.go CtLogSubtree.Midpoint')],
 ['list of (first, last, hash)'])

prop('C13','Claimed log coverage is contiguous and never ahead of what was verified',
 "The entry range and newest timestamp recorded for a log only ever grow by ranges adjacent to what is already recorded, each of which has been downloaded completely and verified first; a gap or failed verification stops progress without changing the record. The newest timestamp recorded is that of an entry in the range, or the tree head's when the range already reaches the end of the log, and nothing is claimed for a log none of whose entries were ever downloaded.",
 ['inputs','histories','fault_sequences'],
 "For every prior log position, tree size, batch size, work order and every sequence of download, proof and verification failures or cancellations.",
 "Tests never run the log workers against a log; all their state transitions are outside what is sampled.",
 ['go/cmd/ct-fetch/rfc6962.go','go/cmd/ct-fetch/tiled.go'],
 [('recording of verified ranges','go/cmd/ct-fetch/rfc6962.go LogWorker.Run, LogWorker.updateState'),
  ('download','go/cmd/ct-fetch/rfc6962.go downloadCTRangeToChannel'),
  ('choice of job','go/cmd/ct-fetch/rfc6962.go NewLogWorker'),
  ('tiled logs','go/cmd/ct-fetch/tiled.go TiledLogWorker.Run, updateState')],
 ['log states sent to the database thread'])

prop('C14','A log position is saved only after the entries before it',
 "Whenever the position of a log is saved, every certificate received before that position has already been stored successfully; if storing fails, nothing is dropped and the same entries are stored again before any later position is saved. Every received certificate is filed under its own issuer, log and timestamp.",
 ['histories','fault_sequences'],
 "For every sequence of messages from the log workers, every batch size and every pattern of store failures.",
 "Tests do not drive the insertion thread with failures; the order of stores and saves over arbitrary histories is not sampled.",
 ['go/cmd/ct-fetch/ct-fetch.go'],
 [('queue then save-point','go/cmd/ct-fetch/ct-fetch.go insertCTWorker, tryUpdate'),
  ('entry construction','go/storage/certdatabase.go PrepareSetMember, Store, SaveLogState')],
 ['sequence of cache writes'])

prop('C15','Certificates are attributed to the key that issues them',
 "Each log entry handed on for storage carries the logged certificate, the certificate that will sign the final certificate (the first of its chain, or the second when the first is a precertificate signing certificate), and the entry's own timestamp and log id. Entries are skipped only when the certificate has expired or has no issuer in its chain; an entry whose certificate or issuer cannot be parsed or determined stops ingestion of its range instead of being skipped.",
 ['inputs'],
 "For every log entry (X.509 or precertificate), chain length, parse outcome and certificate type, for both log protocols.",
 "Tests do not cover the entry paths; chain shapes and parse failures are not enumerated.",
 ['go/cmd/ct-fetch/rfc6962.go','go/cmd/ct-fetch/tiled.go','go/types.go'],
 [('issuer selection','go/cmd/ct-fetch/rfc6962.go LogWorker.storeLogEntry'),
  ('issuer selection for tiled logs','go/cmd/ct-fetch/tiled.go TiledLogWorker.storeLogEntry, GetCertificate'),
  ('precertificate signing test','go/types.go Certificate.IsPreIssuer')],
 ['messages sent to the database thread'])

prop('C16','Bulk cache operations cover every element or report failure',
 "Bulk insertion and bulk removal hand every given element, under its own key, to the cache server, and return success only if every part succeeded; removal touches only the given elements of the given set. The commit lock is granted to at most one holder at a time, only its holder's token tests as the owner, and a release by anyone else does nothing.",
 ['inputs','fault_sequences'],
 "For every number of elements (below, at and above the batch size), every failing batch, and every lock state and token.",
 "Tests use few elements, below one batch, and never fail an individual batch.",
 ['go/storage/rediscache.go'],
 [('batched removal','go/storage/rediscache.go SetRemove'),
  ('pipelined insertion','go/storage/rediscache.go SetInsertMany'),
  ('lock','go/storage/rediscache.go AcquireCommitLock, HasCommitLock, ReleaseCommitLock')],
 ['commands received by the cache server'])

prop('C17','Merging and indexing CRLs per issuer drops and invents nothing',
 "The CRL locations known for an issuer are exactly the union of those listed for its certificates, and merging two such collections gives, for every issuer, exactly the union of both without affecting other issuers. Only http and https locations are accepted from the root program report, and an issuer is in the program exactly if one of its certificates was loaded.",
 ['inputs'],
 "For every pair of collections, every report field content and every sequence of insertions.",
 "Tests merge small fixed maps; arbitrary overlaps, repeated insertions and malformed fields are not enumerated.",
 ['go/types.go','go/rootprogram/issuers.go'],
 [('union','go/types.go IssuerCrlMap.Merge'),
  ('insertion','go/rootprogram/issuers.go InsertIssuer, IsIssuerInProgram, GetCertificateForIssuer'),
  ('parsing of CRL fields','go/rootprogram/issuers.go decodeCrls')],
 ['CRL map and issuer lookups'])

prop('C18','Settings follow environment, then file, then default',
 "Every numeric, boolean or text setting takes the value of its environment variable if that is set and parses, otherwise the value in the configuration file if present there and parses, otherwise its fixed default. A malformed value in one source never produces anything but the next source's value.",
 ['configurations'],
 "For every combination of present, absent, empty and malformed values in the environment and the configuration file, for every setting.",
 "Tests cover a few combinations for a few settings.",
 ['go/config/config.go'],
 [('precedence','go/config/config.go confInt, confUint64, confBool, confString'),
  ('wiring of every setting','go/config/config.go Init')],
 ['values of the configuration after initialisation'])

prop('C19','CRL cache file names are safe and specific to a URL',
 "The file name under which a CRL is cached depends only on its URL, is a single path component made of letters, digits, tilde, hyphen and dot ending in .crl, and embeds a digest of the full normalised URL so that different URLs get different names. It is placed only inside the directory of its issuer.",
 ['inputs'],
 "For every URL, including ones with separators, dot segments, odd characters and queries.",
 "Tests try a few URLs; hostile paths, queries and encodings are not enumerated.",
 ['go/cmd/aggregate-crls/aggregate-crls.go'],
 [('name construction','go/cmd/aggregate-crls/aggregate-crls.go makeFilenameFromUrl, normalizedUrlString'),
  ('placement','go/cmd/aggregate-crls/aggregate-crls.go crlFetchWorkerProcessOne')],
 ['path of the cached CRL'])

prop('C20','Known-certificate output is exactly the stored unexpired serials',
 "For every issuer processed, the output file of known certificates holds, for each of its bins that has not expired, exactly the stored serials of that bin under the bin's expiry line, and nothing else. A bin that cannot be read, or output that cannot be written completely, makes the run fail rather than publishing a shortened list as complete.",
 ['inputs','fault_sequences'],
 "For every list of issuers and bins, every stored content, every current time and every read, write or flush failure.",
 "The worker has no tests; failures in the middle of an issuer and expiry boundaries are not sampled.",
 ['go/cmd/aggregate-known/aggregate-known.go','go/storage/certdatabase.go'],
 [('per-issuer output','go/cmd/aggregate-known/aggregate-known.go knownWorker.run'),
  ('reading and writing bins','go/storage/certdatabase.go ReadSerialsFromStorage, WriteSerialList')],
 ['files in the known directory; cancellation of the run'])

prop('C21','Filters encode exactly the revoked and known sets they are built from',
 "The published filter answers revoked for every known, revoked certificate whose reason is in the selected set and not revoked for every other known certificate of a covered log.",
 ['inputs'],
 "For every pair of known and revoked directories and every reason set.",
 "Tests build filters from small generated sets.",
 ['rust-create-cascade/src/main.rs','rust-create-cascade/src/clubcard_helper.rs'],
 [('filter construction','rust-create-cascade/src/clubcard_helper.rs'),('reason filtering','rust-create-cascade/src/main.rs')],
 ['filter queries'])

prop('C22','Published records form an unbroken chain of full filter and updates',
 "The set of published filter records always consists of one full filter and a chain of incremental updates each naming its predecessor, and a partial or failed upload never leaves clients with a broken chain.",
 ['histories','fault_sequences'],
 "For every sequence of runs and every failure of an upload, deletion or review request.",
 "Tests use canned record lists.",
 ['moz_kinto_publisher/main.py'],
 [('publication of full filters and stashes','moz_kinto_publisher/main.py')],
 ['records of the published collection'])

with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
