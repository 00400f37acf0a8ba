// ---- C06: serial lists ----
fn fmt_016x(int) string
axiom hex16-noNl: forall n: int {fmt_016x(n)} :: noNl("@" ++ fmt_016x(n))
macro expLine(e) = "@" ++ fmt_016x(ns(e.date) / 1000000000)
func storage.serialListExpiryLine(aExpDate) (r)
  prop C06
  nopanic
  ensures r == expLine(aExpDate)
func storage.WriteSerialList(w, aExpDate, aIssuer, aSerials) (err)
  prop C06 C01 C20
  requires nonnil: w != nil && (isBuf(w) ==> bufOf(w) != 0)
  requires complete: complete(before(w))
  havoc acc[dest(w)]
  havoc bwTotal
  havoc bwBase
  havoc bwBad
  ensures lines: err == nil ==> complete(acc[dest(w)]) && nlines(acc[dest(w)]) == old(nlines(before(w))) + 1 + len(aSerials)
  ensures head: err == nil ==> line(acc[dest(w)], old(nlines(before(w)))) == expLine(aExpDate)
  ensures serials: err == nil ==> (forall k: int {aSerials[k]} :: 0 <= k < len(aSerials) ==> line(acc[dest(w)], old(nlines(before(w))) + 1 + k) == hex(ser(aSerials[k])))
  ensures serials-back: err == nil ==> (forall j: int {line(acc[dest(w)], j)} :: old(nlines(before(w))) + 1 <= j < old(nlines(before(w))) + 1 + len(aSerials) ==> line(acc[dest(w)], j) == hex(ser(aSerials[j - 1 - old(nlines(before(w)))])))
  ensures before: err == nil ==> (forall k: int {line(acc[dest(w)], k)} :: 0 <= k < old(nlines(before(w))) ==> line(acc[dest(w)], k) == old(line(before(w), k)))
  inv base: $w: *bufio.Writer :: bwBase[ref($w)] == old(dest(w))
  inv count: $w: *bufio.Writer, $i: phi int :: complete(bwTotal[ref($w)]) && nlines(bwTotal[ref($w)]) == old(nlines(before(w))) + 1 + $i
  inv head: $w: *bufio.Writer :: line(bwTotal[ref($w)], old(nlines(before(w)))) == expLine(aExpDate)
  inv serials: $w: *bufio.Writer, $i: phi int :: forall k: int {aSerials[k]} :: 0 <= k < $i ==> line(bwTotal[ref($w)], old(nlines(before(w))) + 1 + k) == hex(ser(aSerials[k]))
  inv before: $w: *bufio.Writer :: forall k: int {line(bwTotal[ref($w)], k)} :: 0 <= k < old(nlines(before(w))) ==> line(bwTotal[ref($w)], k) == old(line(before(w), k))

// where the list of a bin is stored
macro issuerDir(db, i) = join(serialsDir(db), "issuer::" ++ i)
macro listPath(db, e, i) = join(issuerDir(db, i), "serials::" ++ e ++ "::" ++ i)
func (*storage.CertDatabase).serialFile(db, aExpDate, aIssuer) (r)
  prop C06
  nopanic
  requires nonnil: db != nil
  ensures r == listPath(db, expId(aExpDate), issuerId(aIssuer))
func (*storage.CertDatabase).issuerDir(db, aIssuer) (r)
  prop C06
  nopanic
  requires nonnil: db != nil
  ensures r == issuerDir(db, issuerId(aIssuer))
// a list without an error is the whole list of the file, and its first line names the bin
macro theFile(db, e, i) = listPath(db, expId(e), issuerId(i))
func (*storage.CertDatabase).ReadSerialsFromStorage(db, aExpDate, aIssuer) (r, err)
  prop C06 C01 C20
  requires nonnil: db != nil
  fresh r
  ensures none: err == nil && !(theFile(db, aExpDate, aIssuer) in fsFile) ==> len(r) == 0
  ensures head: err == nil && theFile(db, aExpDate, aIssuer) in fsFile && nlines(fsData[theFile(db, aExpDate, aIssuer)]) > 0 ==> line(fsData[theFile(db, aExpDate, aIssuer)], 0) == expLine(aExpDate)
  ensures all: err == nil && theFile(db, aExpDate, aIssuer) in fsFile ==> len(r) == max(nlines(fsData[theFile(db, aExpDate, aIssuer)]) - 1, 0)
  ensures each: err == nil && theFile(db, aExpDate, aIssuer) in fsFile ==> (forall k: int {r[k]} :: 0 <= k < len(r) ==> hexok(line(fsData[theFile(db, aExpDate, aIssuer)], k + 1)) && ser(r[k]) == hexdec(line(fsData[theFile(db, aExpDate, aIssuer)], k + 1)))
  ensures each-back: err == nil && theFile(db, aExpDate, aIssuer) in fsFile ==> (forall j: int {line(fsData[theFile(db, aExpDate, aIssuer)], j)} :: 1 <= j < len(r) + 1 ==> hexok(line(fsData[theFile(db, aExpDate, aIssuer)], j)) && ser(r[j - 1]) == hexdec(line(fsData[theFile(db, aExpDate, aIssuer)], j)))
  inv pos: $s: *bufio.Scanner, $l: []types.Serial :: scData[ref($s)] == fsData[theFile(db, aExpDate, aIssuer)] && (len($l) + 1 == scPos[ref($s)] || len($l) == 0 && scPos[ref($s)] == 0 && nlines(scData[ref($s)]) == 0)
  inv each: $l: []types.Serial :: forall k: int {$l[k]} :: 0 <= k < len($l) ==> hexok(line(fsData[theFile(db, aExpDate, aIssuer)], k + 1)) && ser($l[k]) == hexdec(line(fsData[theFile(db, aExpDate, aIssuer)], k + 1))
// what is written is what is read
lemma roundtrip: forall c: string, k: int, s: string {line(c, k + 1), hex(s)} :: line(c, k + 1) == hex(s) ==> hexok(line(c, k + 1)) && hexdec(line(c, k + 1)) == s

// sort.Sort on a list of serials (trusted): the same serials, in order; anySerial is an arbitrary serial
const anySerial: string
extern sort.Sort[types.SerialList](s)
  modifies elems(s)
  ensures forall i: int {s[i]} :: 0 < i < len(s) ==> !(ser(s[i]) < ser(s[i-1]))
  ensures old(exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial) ==> (exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial)
  ensures (exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial) ==> old(exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial)
func (types.SerialList).Dedup(s) (r)
  prop C06 C01
  nopanic
  modifies elems(s)
  ensures distinct: forall i: int {r[i]} :: 0 < i < len(r) ==> ser(r[i-1]) != ser(r[i])
  ensures sorted: forall i: int {r[i]} :: 0 < i < len(r) ==> ser(r[i-1]) < ser(r[i])
  ensures same: old(exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial) ==> (exists i: int {r[i]} :: 0 <= i < len(r) && ser(r[i]) == anySerial)
  ensures nonew: (exists i: int {r[i]} :: 0 <= i < len(r) && ser(r[i]) == anySerial) ==> old(exists i: int {s[i]} :: 0 <= i < len(s) && ser(s[i]) == anySerial)
  inv end: $e: phi int, $i: phi int :: 1 <= $e <= $i && $i <= len(s)
  inv tail: $i: phi int :: forall k: int {s[k]} :: $i - 1 <= k < len(s) ==> s[k] == loopentry(s[k])
  inv sorted: $e: phi int :: forall k: int {s[k]} :: 0 < k < $e ==> ser(s[k-1]) < ser(s[k])
  inv last: $e: phi int, $i: phi int :: ser(s[$e-1]) == ser(s[$i-1])
  inv kept: $e: phi int, $i: phi int :: (exists j: int {loopentry(s[j])} :: 0 <= j < $i && loopentry(ser(s[j])) == anySerial) ==> (exists k: int {s[k]} :: 0 <= k < $e && ser(s[k]) == anySerial)
  inv nonew: $e: phi int, $i: phi int :: (exists k: int {s[k]} :: 0 <= k < $e && ser(s[k]) == anySerial) ==> (exists j: int {loopentry(s[j])} :: 0 <= j < $i && loopentry(ser(s[j])) == anySerial)
