// ---- C01, C02, C04: commits ----
// the cache's sets (interface contracts); nothing else changes them while a function runs (ct-fetch only adds entries)
ghost rdSet: map[string]set[string]
// a listing of a set: only members, and without an error all of them; the channel is closed at the end
func (storage.RemoteCache).SetToChan(rc, key, c) (err)
  requires open: !closed(c)
  modifies sent(c), closed(c)
  ensures end: closed(c)
  ensures only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdSet[key]
  ensures every: err == nil ==> (forall n: string {n in rdSet[key]} {n in sent(c)} :: n in rdSet[key] ==> n in sent(c))
// removal touches only the given members of the given set, and without an error removes them all
func (storage.RemoteCache).SetRemove(rc, key, aEntries) (err)
  havoc rdSet[key]
  ensures nonew: forall e: string {e in rdSet[key]} :: e in rdSet[key] ==> e in old(rdSet[key])
  ensures given: forall e: string {e in rdSet[key]} {e in old(rdSet[key])} :: e in old(rdSet[key]) && !(e in rdSet[key]) ==> (exists i: int {aEntries[i]} :: 0 <= i < len(aEntries) && aEntries[i] == e)
  ensures all: err == nil ==> (forall i: int {aEntries[i]} :: 0 <= i < len(aEntries) ==> !(aEntries[i] in rdSet[key]))
func (*storage.CertDatabase).List(db, k) (r)
  prop C01
  requires nonnil: db != nil && k != nil
  fresh r
  ensures nonnil: r != nil
  ensures same: forall e: string {e in r} {e in rdSet[k.id]} :: (e in r) == (e in rdSet[k.id])
  inv from: $r: gomap[string]struct{}, $c: chan string :: forall e: string {e in $r} :: (e in $r) == (e in delivered($c))
  inv sub: $c: chan string :: forall e: string {e in delivered($c)} :: e in delivered($c) ==> e in sent($c)
func (*storage.CertDatabase).RemoveMany(db, k, aEntries) (err)
  prop C01
  requires nonnil: db != nil && k != nil
  modifies k.expirySet
  havoc rdSet[k.id]
  ensures nonew: forall e: string {e in rdSet[k.id]} :: e in rdSet[k.id] ==> e in old(rdSet[k.id])
  ensures given: forall e: string {e in rdSet[k.id]} {e in old(rdSet[k.id])} :: e in old(rdSet[k.id]) && !(e in rdSet[k.id]) ==> (exists i: int {aEntries[i]} :: 0 <= i < len(aEntries) && aEntries[i] == e)
  ensures all: err == nil ==> (forall i: int {aEntries[i]} :: 0 <= i < len(aEntries) ==> !(aEntries[i] in rdSet[k.id]))
func (*storage.CertDatabase).ReadEntriesFromCache(db, aExpDate, aIssuer) (r)
  prop C01
  requires nonnil: db != nil
  requires exp: wfExp(aExpDate)
  requires memo: memoOk()
  havoc gcHas
  havoc gcVal
  fresh r
  ensures memo: memoOk()
  ensures nonnil: r != nil
  ensures same: forall e: string {e in r} {e in rdSet[binKey(expId(aExpDate), issuerId(aIssuer))]} :: (e in r) == (e in rdSet[binKey(expId(aExpDate), issuerId(aIssuer))])
// ---- atomically replaced files (github.com/google/renameio, trusted: the file is replaced by all that was written, or not touched) ----
ghost tmpFor: map[ref]string
// claims[t]: whether the coverage written to t covers the arbitrary entry; fsClaim[p] that of the file p; fsVer[p] counts its replacements
ghost claims: map[ref]bool
ghost fsClaim: map[string]bool
ghost fsVer: map[string]int
extern github.com/google/renameio.TempFile(dir, path) (t, err)
  case ok:
    fresh t
    ensures err == nil && t != nil
    set acc := acc[box(t, *renameio.PendingFile) := ""]
    set tmpFor := tmpFor[ref(t) := path]
  case fail:
    ensures err != nil
extern (*github.com/google/renameio.PendingFile).Cleanup(t) (err)
  pure
extern (*github.com/google/renameio.PendingFile).CloseAtomicallyReplace(t) (err)
  case ok:
    ensures err == nil
    set fsFile := fsFile[tmpFor[ref(t)] := true]
    set fsData := fsData[tmpFor[ref(t)] := acc[box(t, *renameio.PendingFile)]]
    set fsClaim := fsClaim[tmpFor[ref(t)] := claims[ref(t)]]
    set fsVer := fsVer[tmpFor[ref(t)] := fsVer[tmpFor[ref(t)]] + 1]
  case fail:
    ensures err != nil
// the stored list at path p holds the serial s
macro storedAt(p, s) = (p in fsFile && (exists k: int {line(fsData[p], k)} :: 1 <= k < nlines(fsData[p]) && hexok(line(fsData[p], k)) && hexdec(line(fsData[p], k)) == s))
// an arbitrary entry, whose serial is the arbitrary serial of Dedup
const anyEnt: string
axiom anyEnt: entSerial(anyEnt) == anySerial
macro theKey(e, i) = binKey(expId(e), issuerId(i))
func (*storage.CertDatabase).moveOneBinOfCachedSerialsToStorage(db, aTmpDir, aExpDate, aIssuer, aCoverageCutoffMap) (err)
  prop C01 C02
  requires nonnil: db != nil && aCoverageCutoffMap != nil
  requires exp: wfExp(aExpDate)
  requires memo: memoOk()
  havoc gcHas
  havoc gcVal
  havoc acc
  havoc bwTotal
  havoc bwBase
  havoc bwBad
  havoc fdPath
  havoc fdData
  havoc scData
  havoc scPos
  havoc scBad
  havoc fsFile[theFile(db, aExpDate, aIssuer)]
  havoc fsData[theFile(db, aExpDate, aIssuer)]
  havoc fsClaim[theFile(db, aExpDate, aIssuer)]
  havoc fsVer[theFile(db, aExpDate, aIssuer)]
  havoc rdSet[theKey(aExpDate, aIssuer)]
  modifies anyfield(zero(*storage.SerialCacheKey).expirySet)
  always kept: anyEnt in old(rdSet[theKey(aExpDate, aIssuer)]) ==> anyEnt in rdSet[theKey(aExpDate, aIssuer)] || storedAt(theFile(db, aExpDate, aIssuer), anySerial)
  always stored: old(storedAt(theFile(db, aExpDate, aIssuer), anySerial)) ==> storedAt(theFile(db, aExpDate, aIssuer), anySerial)
  ensures memo: memoOk()
  ensures kept: anyEnt in old(rdSet[theKey(aExpDate, aIssuer)]) ==> anyEnt in rdSet[theKey(aExpDate, aIssuer)] || storedAt(theFile(db, aExpDate, aIssuer), anySerial)
  ensures stored: old(storedAt(theFile(db, aExpDate, aIssuer), anySerial)) ==> storedAt(theFile(db, aExpDate, aIssuer), anySerial)
  ensures done: err == nil && anyEnt in old(rdSet[theKey(aExpDate, aIssuer)]) && isCovered(anyEnt, *aCoverageCutoffMap) ==> storedAt(theFile(db, aExpDate, aIssuer), anySerial)
  ensures uncovered: anyEnt in old(rdSet[theKey(aExpDate, aIssuer)]) && !isCovered(anyEnt, *aCoverageCutoffMap) ==> anyEnt in rdSet[theKey(aExpDate, aIssuer)]
  ensures [C02] only: storedAt(theFile(db, aExpDate, aIssuer), anySerial) && !old(storedAt(theFile(db, aExpDate, aIssuer), anySerial)) ==> (exists e: string {e in old(rdSet[theKey(aExpDate, aIssuer)])} :: e in old(rdSet[theKey(aExpDate, aIssuer)]) && isCovered(e, *aCoverageCutoffMap) && entSerial(e) == anySerial)
  inv covered: $e: phi []string :: forall j: int {$e[j]} :: 0 <= j < len($e) ==> $e[j] in rdSet[theKey(aExpDate, aIssuer)] && isCovered($e[j], *aCoverageCutoffMap)
  inv pair: $e: phi []string, $s: phi []types.Serial :: len($e) == len($s) && (forall j: int {$e[j]} {$s[j]} :: 0 <= j < len($e) ==> ser($s[j]) == entSerial($e[j]))
  inv all: $v: visited, $e: phi []string :: anyEnt in $v && isCovered(anyEnt, *aCoverageCutoffMap) ==> (exists j: int {$e[j]} :: 0 <= j < len($e) && $e[j] == anyEnt)
// ---- moving all bins ----
macro covFile(db) = join(db.storageDir, "ct-logs.json")
macro epochFile(db) = join(db.storageDir, "epoch")
// expiry labels and issuer ids have no path separators, so the lists are not the files beside them
axiom lists-apart: forall d: string, e: string, i: string, m: string {join(join(join(d, "serials"), "issuer::" ++ i), "serials::" ++ e ++ "::" ++ i), join(d, m)} :: (m == "ct-logs.json" || m == "epoch") ==> join(join(join(d, "serials"), "issuer::" ++ i), "serials::" ++ e ++ "::" ++ i) != join(d, m)
axiom files-apart: forall d: string {join(d, "ct-logs.json")} :: join(d, "ct-logs.json") != join(d, "epoch")
macro besides(db) = (fsClaim[covFile(db)] == old(fsClaim[covFile(db)]) && fsVer[covFile(db)] == old(fsVer[covFile(db)]) && fsVer[epochFile(db)] == old(fsVer[epochFile(db)]) && fsData[epochFile(db)] == old(fsData[epochFile(db)]) && (epochFile(db) in fsFile) == old(epochFile(db) in fsFile))
fn keyOf(string, string) string
axiom keyOf: forall e: string, i: string {"serials::" ++ e ++ "::" ++ i} :: keyOf(e, i) == "serials::" ++ e ++ "::" ++ i
axiom keyOf2: forall e: string, i: string {keyOf(e, i)} :: keyOf(e, i) == "serials::" ++ e ++ "::" ++ i
lemma key-prefix: forall e: string, i: string {keyOf(e, i)} :: prefixof("serials::", keyOf(e, i))
lemma key-injective: forall e: string, i: string, f: string, j: string {keyOf(e, i), keyOf(f, j)} :: (len(e) == 10 || isLabelH(e)) && (len(f) == 10 || isLabelH(f)) && keyOf(e, i) == keyOf(f, j) ==> e == f && i == j
// the arbitrary name read as the key of a bin, and where that bin is stored
macro kE() = canon(part(anyName, "::", 1))
macro kI() = part(anyName, "::", 2)
macro kOk() = (nparts(anyName, "::") == 3 && labelOk(part(anyName, "::", 1)) && anyName == keyOf(kE(), kI()))
macro kPath(db) = listPath(db, kE(), kI())
// an entry covered by every state listed for its log, or by none
macro stateCovers(e, s) = (entTime(e) <= cutoff(s.MaxTimestamp, s.MMD))
macro logIs(e, s) = (idOk(s.LogID) && idOf(s.LogID) == entLog(e))
macro covAll(e, L) = (len(e) < 40 || ((exists j: int {L[j]} :: 0 <= j < len(L) && logIs(e, L[j])) && (forall j: int {L[j]} :: 0 <= j < len(L) && logIs(e, L[j]) ==> stateCovers(e, L[j]))))
macro covNone(e, L) = (len(e) >= 40 && (forall j: int {L[j]} :: 0 <= j < len(L) && logIs(e, L[j]) ==> !stateCovers(e, L[j])))
macro binDone(db, m) = (kOk() && anyEnt in old(rdSet[anyName]) && isCovered(anyEnt, m) ==> storedAt(kPath(db), anySerial))
func (*storage.CertDatabase).moveCachedSerialsToStorage(db, aLogData) (err)
  prop C01
  requires nonnil: db != nil
  requires memo: memoOk()
  assume keys: anyEnt in rdSet[anyName] ==> anyName in rdKeys
  assume mmd: forall j: int :: 0 <= j < len(aLogData) ==> aLogData[j].MMD <= 18446744073709551
  havoc gcHas
  havoc gcVal
  havoc acc
  havoc bwTotal
  havoc bwBase
  havoc bwBad
  havoc fdPath
  havoc fdData
  havoc scData
  havoc scPos
  havoc scBad
  havoc fsFile
  havoc fsData
  havoc fsClaim
  havoc fsVer
  havoc rdSet
  modifies anyfield(zero(*storage.SerialCacheKey).expirySet)
  always kept: kOk() && anyEnt in old(rdSet[anyName]) ==> anyEnt in rdSet[anyName] || storedAt(kPath(db), anySerial)
  always stored: old(storedAt(anyPath, anySerial)) ==> storedAt(anyPath, anySerial)
  ensures memo: memoOk()
  ensures kept: kOk() && anyEnt in old(rdSet[anyName]) ==> anyEnt in rdSet[anyName] || storedAt(kPath(db), anySerial)
  ensures stored: old(storedAt(anyPath, anySerial)) ==> storedAt(anyPath, anySerial)
  ensures storedk: old(storedAt(kPath(db), anySerial)) ==> storedAt(kPath(db), anySerial)
  always besides: besides(db)
  ensures besides: besides(db)
  ensures done: err == nil && kOk() && anyEnt in old(rdSet[anyName]) && covAll(anyEnt, aLogData) ==> storedAt(kPath(db), anySerial)
  ensures uncovered: kOk() && anyEnt in old(rdSet[anyName]) && covNone(anyEnt, aLogData) ==> anyEnt in rdSet[anyName]
  inv memo: memoOk()
  inv kept: kOk() && anyEnt in old(rdSet[anyName]) ==> anyEnt in rdSet[anyName] || storedAt(kPath(db), anySerial)
  inv stored: old(storedAt(anyPath, anySerial)) ==> storedAt(anyPath, anySerial)
  inv storedk: loopentry(storedAt(kPath(db), anySerial)) ==> storedAt(kPath(db), anySerial)
  inv besides: besides(db)
  inv stay: $m: types.CoverageCutoffMap :: kOk() && anyEnt in old(rdSet[anyName]) && !isCovered(anyEnt, $m) ==> anyEnt in rdSet[anyName]
  inv bins: $i: phi int indexing []types.IssuerDate, $l: []types.IssuerDate, $m: types.CoverageCutoffMap :: forall j: int, a: int {$l[j].ExpDates[a]} :: 0 <= j < $i && 0 <= a < len($l[j].ExpDates) && issuerId($l[j].Issuer) == kI() && expId($l[j].ExpDates[a]) == kE() ==> binDone(db, $m)
  inv batches: $i: phi int, $d: types.IssuerDate, $m: types.CoverageCutoffMap :: forall a: int {$d.ExpDates[a]} :: 0 <= a < $i && a < len($d.ExpDates) && issuerId($d.Issuer) == kI() && expId($d.ExpDates[a]) == kE() ==> binDone(db, $m)
  inv bounds: $i: phi int :: 0 <= $i
  inv cov: $m: types.CoverageCutoffMap :: covAll(anyEnt, aLogData) ==> isCovered(anyEnt, $m)
  inv listed: $l: []types.IssuerDate :: kOk() && anyEnt in old(rdSet[anyName]) ==> (exists j: int, a: int {$l[j].ExpDates[a]} :: 0 <= j < len($l) && 0 <= a < len($l[j].ExpDates) && issuerId($l[j].Issuer) == kI() && expId($l[j].ExpDates[a]) == kE())
  inv issuer: $d: types.IssuerDate, $s: types.Issuer :: issuerId($s) == issuerId($d.Issuer)
  inv spawned: $i: phi int, $d: types.IssuerDate, $m: types.CoverageCutoffMap, $c: chan error :: forall a: int {$d.ExpDates[a]} :: 0 <= a < $i && a < len($d.ExpDates) && issuerId($d.Issuer) == kI() && expId($d.ExpDates[a]) == kE() ==> binDone(db, $m) || (exists x: iface {x in sent($c)} :: x in sent($c) && x != nil)
  inv drained: $c: chan error :: forall x: iface {x in delivered($c)} :: x in delivered($c) ==> x == nil

// ---- the commit ----
ghost rdLock: set[string]
ghost rdEpoch: int
// what the cache answers: the holder's token is the owner's; the epoch is a number counted up by one
func (storage.RemoteCache).HasCommitLock(rc, aToken) (r, err)
  pure
  ensures err == nil ==> r == (aToken in rdLock)
func (storage.RemoteCache).GetEpoch(rc) (r, err)
  pure
  ensures err == nil ==> r == rdEpoch
func (storage.RemoteCache).NextEpoch(rc) (err)
  havoc rdEpoch
  ensures err == nil ==> rdEpoch == old(rdEpoch) + 1
  ensures err != nil ==> rdEpoch == old(rdEpoch) || rdEpoch == old(rdEpoch) + 1
func (storage.RemoteCache).LoadAllLogStates(rc) (r, err)
  pure
  fresh r
fn itoa(int) string
axiom itoa: forall n: int {itoa(n)} :: noNl(itoa(n)) && (0 <= n && n <= 18446744073709551615 ==> unumOk(itoa(n), 10, 64) && unum(itoa(n), 10, 64) == n)
axiom unum-range64: forall s: string, b: int {unum(s, b, 64)} :: 0 <= unum(s, b, 64) && unum(s, b, 64) <= 18446744073709551615
// the epoch in storage: that of the first line of its file, zero if there is none
macro epochText(d) = (nlines(d) > 0 ? unum(line(d, 0), 10, 64) : 0)
macro storageEpoch(db) = (epochFile(db) in fsFile ? epochText(fsData[epochFile(db)]) : 0)
func (*storage.CertDatabase).epochFile(db) (r)
  prop C04
  requires nonnil: db != nil
  ensures r == epochFile(db)
func (*storage.CertDatabase).coverageFile(db) (r)
  prop C01
  requires nonnil: db != nil
  ensures r == covFile(db)
func (*storage.CertDatabase).getStorageEpoch(db) (r, err)
  prop C04
  requires nonnil: db != nil
  havoc fdPath
  havoc fdData
  havoc scData
  havoc scPos
  havoc scBad
  ensures epoch: err == nil ==> r == storageEpoch(db)
// encoding/json: an encoder writes to its destination; what is written of a list of logs covers what the list covers
ghost encTo: map[ref]iface
extern encoding/json.NewEncoder(w) (e)
  pure
  fresh e
  ensures e != nil
  set encTo := encTo[ref(e) := w]
extern (*encoding/json.Encoder).Encode(e, v) (err)
  havoc acc[encTo[ref(e)]]
  case ok:
    ensures err == nil
    havoc claims[ref(as(encTo[ref(e)], *renameio.PendingFile))]
    ensures claims[ref(as(encTo[ref(e)], *renameio.PendingFile))] == covAll(anyEnt, as(v, []types.CTLogState))
  case fail:
    ensures err != nil
    havoc claims[ref(as(encTo[ref(e)], *renameio.PendingFile))]
macro mayCommit(db, tok) = (!db.readOnlyStorage && tok in old(rdLock) && (old(rdEpoch) == (old(storageEpoch(db)) + 1) % 18446744073709551616 || old(rdEpoch) == 0 && old(storageEpoch(db)) == 0))
func (*storage.CertDatabase).Commit(db, aProofOfLock) (err)
  prop C01 C04
  requires nonnil: db != nil
  requires memo: memoOk()
  assume keys: anyEnt in rdSet[anyName] ==> anyName in rdKeys
  havoc gcHas
  havoc gcVal
  havoc acc
  havoc bwTotal
  havoc bwBase
  havoc bwBad
  havoc tmpFor
  havoc claims
  havoc encTo
  havoc fdPath
  havoc fdData
  havoc scData
  havoc scPos
  havoc scBad
  havoc fsFile
  havoc fsData
  havoc fsClaim
  havoc fsVer
  havoc rdSet
  havoc rdEpoch
  havoc rmTried
  modifies anyfield(zero(*storage.SerialCacheKey).expirySet)
  always [C01] kept: kOk() && anyEnt in old(rdSet[anyName]) ==> anyEnt in rdSet[anyName] || storedAt(kPath(db), anySerial)
  always [C01] stored: old(storedAt(anyPath, anySerial)) && anyPath != covFile(db) && anyPath != epochFile(db) ==> storedAt(anyPath, anySerial)
  always [C01] coverage: fsVer[covFile(db)] != old(fsVer[covFile(db)]) && fsClaim[covFile(db)] ==> (kOk() && anyEnt in old(rdSet[anyName]) ==> storedAt(kPath(db), anySerial))
  ensures [C01] removed: anyPath in rmTried && !(anyPath in old(rmTried)) ==> (exists t: int {mayRemove(serialsDir(db), anyPath, t)} :: wasNow(t) && mayRemove(serialsDir(db), anyPath, t))
  always [C04] gated-files: fsData[anyPath] != old(fsData[anyPath]) || (anyPath in fsFile) != old(anyPath in fsFile) || (anyPath in rmTried) != old(anyPath in rmTried) ==> mayCommit(db, aProofOfLock)
  always [C04] gated-cache: rdSet[anyName] != old(rdSet[anyName]) || rdEpoch != old(rdEpoch) ==> mayCommit(db, aProofOfLock)
  ensures [C04] refused: !mayCommit(db, aProofOfLock) ==> err != nil
  ensures [C04] epochs: err == nil && fsVer[epochFile(db)] != old(fsVer[epochFile(db)]) ==> rdEpoch == storageEpoch(db) + 1
  ensures [C04] unwritten: fsVer[epochFile(db)] == old(fsVer[epochFile(db)]) ==> storageEpoch(db) == old(storageEpoch(db))
// ---- start-up: the log positions in storage replace those of the cache ----
fn listLen(string) int
fn listLog(string, int) string
macro holdsList(L, text) = (len(L) == listLen(text) && (forall j: int {L[j]} :: 0 <= j < len(L) ==> logText(L[j]) == listLog(text, j)))
// what the cache's logs were last set to as a whole, in order
ghost rdListLen: int
ghost rdList: map[int]string
func (storage.RemoteCache).Restore(rc, e, L) (err)
  havoc rdEpoch
  havoc rdListLen
  havoc rdList
  ensures err == nil ==> rdEpoch == e && rdListLen == len(L) && (forall j: int {L[j]} :: 0 <= j < len(L) ==> rdList[j] == logText(L[j]))
// encoding/json: the list decoded is determined by the text
ghost decFrom: map[ref]iface
extern encoding/json.NewDecoder(r) (d)
  pure
  fresh d
  ensures d != nil
  set decFrom := decFrom[ref(d) := r]
extern (*encoding/json.Decoder).Decode[*[]types.CTLogState](d, v) (err)
  modifies *v
  ensures err == nil ==> holdsList(*v, fdData[ref(as(decFrom[ref(d)], *os.File))])
func (*storage.CertDatabase).GetCTLogsFromStorage(db) (r, err)
  prop C04
  requires nonnil: db != nil
  havoc fdPath
  havoc fdData
  havoc decFrom
  ensures list: err == nil ==> covFile(db) in fsFile && holdsList(r, fsData[covFile(db)])
macro epochsMatch(db) = (rdEpoch == (storageEpoch(db) + 1) % 18446744073709551616 || rdEpoch == 0 && storageEpoch(db) == 0)
func (*storage.CertDatabase).EnsureCacheIsConsistent(db) (err)
  prop C04
  requires nonnil: db != nil
  havoc fdPath
  havoc fdData
  havoc decFrom
  havoc scData
  havoc scPos
  havoc scBad
  havoc rdEpoch
  havoc rdListLen
  havoc rdList
  ensures matched: old(epochsMatch(db)) ==> rdEpoch == old(rdEpoch) && rdListLen == old(rdListLen) && rdList == old(rdList)
  ensures consistent: err == nil ==> epochsMatch(db)
  ensures restored: err == nil && !old(epochsMatch(db)) ==> rdListLen == listLen(fsData[covFile(db)]) && (forall j: int {rdList[j]} :: 0 <= j < rdListLen ==> rdList[j] == listLog(fsData[covFile(db)], j))
