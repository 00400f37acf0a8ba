// ---- C02/C03: cache entries ----
// an entry of 40 bytes or more is timestamp(8) ++ log id(32) ++ serial; shorter ones are bare serials
macro entTime(e) = le64(substr(e, 0, 8))
macro entLog(e) = substr(e, 8, 32)
macro entSerial(e) = (len(e) < 40 ? e : substr(e, 40, len(e) - 40))
macro isCovered(e, m) = (len(e) < 40 || (entLog(e) in m && entTime(e) <= m[entLog(e)]))

func (storage.SerialCacheEntry).AsSerial(s) (r, err)
  prop C02 C03
  nopanic
  ensures ok: err == nil && ser(r) == entSerial(s)
func (storage.SerialCacheEntry).IsCovered(s, aCoverageMap) (r)
  prop C02
  nopanic
  requires nonnil: aCoverageMap != nil
  ensures r == isCovered(s, *aCoverageMap)
// what is stored in the cache for a certificate
macro entry(ts, log, ser) = enc64(ts) ++ log ++ ser
macro binKey(id, iss) = "serials::" ++ id ++ "::" ++ iss
func storage.NewSerialCacheKey(aExpDate, aIssuer) (k)
  prop C03
  nopanic
  fresh k
  ensures nonnil: k != nil
  ensures key: k.id == binKey(expId(aExpDate), issuerId(aIssuer))
  ensures exp: k.expDate == aExpDate
func (*storage.SerialCacheKey).ID(k) (r)
  prop C03
  nopanic
  requires nonnil: k != nil
  ensures r == k.id
func (*storage.SerialCacheKey).NewMember(k, aTimestamp, aLogId, serial) (m)
  prop C03
  nopanic
  requires nonnil: k != nil
  ensures key: m.Key == k.id
  ensures value: m.Value == entry(aTimestamp, aLogId, ser(serial))
  ensures expiry: m.Expiry == k.expDate.date
// the entry of a certificate decodes to what it was built from
theorem entry-back: forall t: int, l: string, s: string :: 0 <= t <= 18446744073709551615 && len(l) == 32 ==> entTime(entry(t, l, s)) == t && entLog(entry(t, l, s)) == l && entSerial(entry(t, l, s)) == s

// ---- the memo of bin keys (github.com/bluele/gcache, trusted: returns what was set under a key, or that there is nothing) ----
ghost gcHas: set[iface]
ghost gcVal: map[iface]iface
extern (github.com/bluele/gcache.Cache).GetIFPresent(c, k) (v, err)
  pure
  case hit:
    ensures k in gcHas && err == nil && v == gcVal[k]
  case miss:
    ensures err != nil && err == gcache.KeyNotFoundError
  case fail:
    ensures err != nil && err != gcache.KeyNotFoundError
extern (github.com/bluele/gcache.Cache).Set(c, k, v) (err)
  case ok:
    set gcHas := gcHas[k := true]
    set gcVal := gcVal[k := v]
    ensures err == nil
  case fail:
    ensures err != nil
// labels of bins, told apart by their length and where their hyphens are
macro isLabel(e) = ((len(e) == 13 && substr(e, 4, 1) == "-") || (len(e) == 10 && substr(e, 1, 1) != "-"))
fn memoKey(string, string) string
axiom memoKey: forall i: string, e: string {i ++ e} :: memoKey(i, e) == i ++ e
axiom memoKey2: forall i: string, e: string {memoKey(i, e)} :: memoKey(i, e) == i ++ e
lemma memo-injective: forall i: string, e: string, j: string, f: string {memoKey(i, e), memoKey(j, f)} :: isLabel(e) && isLabel(f) && memoKey(i, e) == memoKey(j, f) ==> i == j && e == f
macro memoed(i, e) = as(gcVal[box(memoKey(i, e), string)], *storage.SerialCacheKey)
macro memoOk() = (forall i: string, e: string {memoKey(i, e)} :: isLabel(e) && box(memoKey(i, e), string) in gcHas ==> istype(gcVal[box(memoKey(i, e), string)], *storage.SerialCacheKey) && memoed(i, e) != nil && memoed(i, e).id == binKey(e, i) && expId(memoed(i, e).expDate) == e && wfExp(memoed(i, e).expDate))
func (*storage.CertDatabase).GetSerialCacheKey(db, aExpDate, aIssuer) (k)
  prop C03
  requires nonnil: db != nil
  requires exp: wfExp(aExpDate)
  requires memo: memoOk()
  havoc gcHas
  havoc gcVal
  ensures memo: memoOk()
  ensures key: k != nil && k.id == binKey(expId(aExpDate), issuerId(aIssuer))
  ensures exp: ns(k.expDate.date) == ns(aExpDate.date) && loc(k.expDate.date) == 0
// what a certificate is stored as: its issuer's key, the hour of its expiry, its own serial number
func (*storage.CertDatabase).PrepareSetMember(db, aCertificate, aIssuer, aTimestamp, aLogId) (m)
  prop C03
  requires nonnil: db != nil && wfCert(aCertificate) && wfCert(aIssuer)
  requires memo: memoOk()
  assume yearRange(certNotAfter(aCertificate))
  havoc gcHas
  havoc gcVal
  ensures memo: memoOk()
  ensures value: tbsOk(certTBS(aCertificate)) && m.Value == entry(aTimestamp, aLogId, tbsSerial(certTBS(aCertificate)))
  ensures expiry: loc(m.Expiry) == 0 && ns(m.Expiry) <= certNotAfter(aCertificate) && certNotAfter(aCertificate) < ns(m.Expiry) + 3600000000000 && ns(m.Expiry) % 3600000000000 == 0
  ensures key: m.Key == binKey(fmtTime("2006-01-02-15", ns(m.Expiry), 0), spkiId(certSpki(aIssuer)))
