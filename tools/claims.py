CLAIMED.update({
 'C01': "Commit, moveCachedSerialsToStorage, moveOneBinOfCachedSerialsToStorage, WriteSerialList, RemoveSerialsFromCache, SetRemove and what they call (39 functions) proved: the no-loss invariant holds after every single effect on disk or cache, hence at every stop point and for every failure; assumes rename is atomic and durable, redis commands as documented, and no other writer during the commit",
 'C04': "Commit's guards, EnsureCacheIsConsistent, Restore, epoch and lock operations of both cache and storage (48 functions) proved for all epochs, tokens and failures; assumes redis commands as documented and that the lock does not expire during the commit",
 'C02': "KeyID, CoverageCutoff, NewCoverageCutoffMap, AsSerial, IsCovered proved for all inputs; assumes encoding/base64 and little-endian decoding as documented and MMD small enough not to overflow",
 'C03': "PrepareSetMember down to the entry bytes, bin names and serial conversions proved for all certificates, timestamps and log ids; assumes encoding/binary, crypto hashes as injective functions and the certificate parsers as documented",
 'C06': "WriteSerialList, ReadSerialsFromStorage, Dedup and the write-read lemma proved for all lists, files and failing writers; assumes bufio, os and sort as documented and lines within the reader's 64 KiB",
  'C07': "GetIssuerAndDatesFromChannel, FromCache, FromStorage and KeysToChan proved for every scan, directory tree and failure; assumes redis SCAN and os.ReadDir completeness and the time package's formatting round trip",
 'C18': "confInt, confUint64, confBool, confString, NewCTConfig and Init proved for every environment, file and flag value; assumes strconv, os.LookupEnv, flag and the ini library as documented",
 'C16': "SetInsertMany, SetRemove, SetInsert, SetToChan, AcquireCommitLock, HasCommitLock and ReleaseCommitLock proved for all element lists, batch counts and failures of the server; assumes go-redis and the server carry out commands as documented, and ignores the lock's own expiry",
 'C05': "label arithmetic and clean-up proved for all times, labels and directory contents; assumes the time package's formatting round trip for years 0 to 9999 and os.ReadDir completeness",
})
NA.update({
 'C21': "The filter builder is Rust whose guarantee rests on the clubcard crate's linear-algebra construction, which is not in the repository and cannot be built offline here; no Rust deductive verifier reaches it.",
 'C22': "The publisher is Python driving a remote Kinto service; no deductive verifier for Python contracts is available here (crosshair is bounded symbolic execution, not deductive proof).",
})
