// ---- C07: where names come from ----
// the names of stored lists: the least set with these members
fn storedName(map[string]set[string], string, string) bool
axiom storedName: forall h: map[string]set[string], s: string, d: string, n: string {n in h[join(s, d)]} :: d in h[s] && fsIsDir(s, d) && prefixof("issuer::", d) && n in h[join(s, d)] && prefixof("serials::", n) ==> storedName(h, s, n)
// the name n is that of a stored list: a file serials::* in a directory issuer::* under serials
macro dirHolds(db, d, n) = (d in fsHas[serialsDir(db)] && fsIsDir(serialsDir(db), d) && prefixof("issuer::", d) && n in fsHas[join(serialsDir(db), d)] && prefixof("serials::", n) && !(join(serialsDir(db), d) in rmTried) && !(join(join(serialsDir(db), d), n) in rmTried))
func (*storage.CertDatabase).GetIssuerAndDatesFromStorage(db) (r, err)
  prop C07
  requires nonnil: db != nil
  fresh r
  ensures issuers: err == nil ==> (forall a: int, b: int {r[a], r[b]} :: 0 <= a < b && b < len(r) ==> issuerId(r[a].Issuer) != issuerId(r[b].Issuer))
  ensures bins: err == nil ==> (forall k: int, a: int, b: int {r[k].ExpDates[a], r[k].ExpDates[b]} :: 0 <= k < len(r) && 0 <= a < b && b < len(r[k].ExpDates) ==> expId(r[k].ExpDates[a]) != expId(r[k].ExpDates[b]))
  ensures present: err == nil ==> (forall k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) ==> (exists n: string {storedName(fsHas, serialsDir(db), n)} :: storedName(fsHas, serialsDir(db), n) && denotes(n, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
  ensures all: err == nil && dirHolds(db, anyDir, anyName) ==> named(anyName) && (labelOk(part(anyName, "::", 1)) ==> (exists k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) && denotes(anyName, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
  inv stored: $c: chan string :: forall n: string {n in sent($c)} :: n in sent($c) ==> storedName(fsHas, serialsDir(db), n)
  inv kept: $c: chan string :: anyName in loopentry(sent($c)) ==> anyName in sent($c)
  inv done-dirs: $c: chan string, $i: phi int, $ds: []fs.DirEntry :: forall j: int {deName($ds[j])} :: 0 <= j < $i && deName($ds[j]) == anyDir && dirHolds(db, anyDir, anyName) ==> anyName in sent($c)
  inv done-files: $c: chan string, $i: phi int, $fs: []fs.DirEntry, $d: string :: forall j: int {deName($fs[j])} :: 0 <= j < $i && $d == join(serialsDir(db), anyDir) && deName($fs[j]) == anyName && prefixof("serials::", anyName) ==> anyName in sent($c)

// ---- the cache's keys (redis and its client trusted) ----
ghost rdKeys: set[string]
fn globMatch(string, string) bool
fn matching(set[string], string) set[string]
axiom matching: forall k: set[string], p: string, n: string {n in matching(k, p)} :: (n in matching(k, p)) == (n in k && globMatch(p, n))
axiom glob-serials: forall s: string {globMatch("serials::*", s)} :: globMatch("serials::*", s) == prefixof("serials::", s)
axiom glob-log: forall s: string {globMatch("log::*", s)} :: globMatch("log::*", s) == prefixof("log::", s)
ghost itFrom: map[ref]set[string]
ghost itSeen: map[ref]set[string]
ghost itCur: map[ref]string
ghost itBad: set[ref]
ghost scanFrom: map[ref]set[string]
// a listing by keys: only keys that are there, and without an error all of them; the channel is closed at the end
func (storage.RemoteCache).KeysToChan(rc, pattern, c) (err)
  requires open: !closed(c)
  modifies sent(c), closed(c)
  ensures end: closed(c)
  ensures only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdKeys && globMatch(pattern, n)
  ensures every: err == nil ==> (forall n: string {n in rdKeys} {n in sent(c)} :: n in rdKeys && globMatch(pattern, n) ==> n in sent(c))
func (*storage.CertDatabase).GetIssuerAndDatesFromCache(db) (r, err)
  prop C07 C01
  requires nonnil: db != nil
  fresh r
  ensures issuers: err == nil ==> (forall a: int, b: int {r[a], r[b]} :: 0 <= a < b && b < len(r) ==> issuerId(r[a].Issuer) != issuerId(r[b].Issuer))
  ensures bins: err == nil ==> (forall k: int, a: int, b: int {r[k].ExpDates[a], r[k].ExpDates[b]} :: 0 <= k < len(r) && 0 <= a < b && b < len(r[k].ExpDates) ==> expId(r[k].ExpDates[a]) != expId(r[k].ExpDates[b]))
  ensures present: err == nil ==> (forall k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) ==> wfExp(r[k].ExpDates[a]) && (exists n: string {n in rdKeys} :: n in rdKeys && prefixof("serials::", n) && denotes(n, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
  ensures all: err == nil && anyName in rdKeys && prefixof("serials::", anyName) ==> named(anyName) && (labelOk(part(anyName, "::", 1)) ==> (exists k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) && denotes(anyName, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
extern (*github.com/go-redis/redis.cmdable).Scan(c, cursor, match, count) (r)
  pure
  fresh r
  ensures r != nil
  set scanFrom := scanFrom[ref(r) := matching(rdKeys, match)]
extern (*github.com/go-redis/redis.ScanCmd).Iterator(s) (it)
  pure
  fresh it
  ensures it != nil
  set itFrom := itFrom[ref(it) := scanFrom[ref(s)]]
  set itSeen := itSeen[ref(it) := noStrings]
  set itBad := itBad[ref(it) := false]
extern (*github.com/go-redis/redis.baseCmd).Err(c) (err)
  pure
  ensures err == cmdErr[owner(c)]
// an iteration yields keys of the server; without an error it ends when it has yielded every matching one
extern (*github.com/go-redis/redis.ScanIterator).Next(it) (r)
  pure
  case item:
    havoc itCur
    ensures r && itCur[ref(it)] in itFrom[ref(it)]
    set itSeen := itSeen[ref(it) := itSeen[ref(it)][itCur[ref(it)] := true]]
  case end:
    ensures !r && !(ref(it) in itBad) && (forall n: string {n in itFrom[ref(it)]} {n in itSeen[ref(it)]} :: n in itFrom[ref(it)] ==> n in itSeen[ref(it)])
  case fail:
    ensures !r
    set itBad := itBad[ref(it) := true]
extern (*github.com/go-redis/redis.ScanIterator).Val(it) (s)
  pure
  ensures s == itCur[ref(it)]
extern (*github.com/go-redis/redis.ScanIterator).Err(it) (err)
  pure
  ensures (err != nil) == (ref(it) in itBad)
const noStrings: set[string]
axiom noStrings: forall s: string {s in noStrings} :: !(s in noStrings)
func (*storage.RedisCache).KeysToChan(rc, pattern, c) (err)
  prop C07
  requires nonnil: rc != nil && rc.client != nil
  requires open: !closed(c)
  modifies sent(c), closed(c)
  havoc itSeen
  havoc itBad
  havoc itCur
  havoc itFrom
  havoc scanFrom
  ensures end: closed(c)
  ensures only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdKeys && globMatch(pattern, n)
  ensures every: err == nil ==> (forall n: string {n in rdKeys} {n in sent(c)} :: n in rdKeys && globMatch(pattern, n) ==> n in sent(c))
  inv from: $it: *redis.ScanIterator :: itFrom[ref($it)] == matching(rdKeys, pattern) && !(ref($it) in itBad)
  inv only: forall n: string {n in sent(c)} :: n in sent(c) && !(n in old(sent(c))) ==> n in rdKeys && globMatch(pattern, n)
  inv seen: $it: *redis.ScanIterator :: forall n: string {n in itSeen[ref($it)]} :: n in itSeen[ref($it)] ==> n in sent(c)
