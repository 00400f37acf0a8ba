// ---- library functions (trusted: documented behaviour of the Go standard library and dependencies) ----

// encoding/base64: whether a string decodes, and to what; encoding is injective and decodes back
fn b64ok(ref, string) bool
fn b64dec(ref, string) string
fn b64enc(ref, string) string
axiom b64enc-dec: forall r: ref, s: string {b64enc(r, s)} :: b64ok(r, b64enc(r, s)) && b64dec(r, b64enc(r, s)) == s
extern (*encoding/base64.Encoding).DecodeString(enc, s) (b, err)
  pure
  fresh b
  case ok:
    ensures b64ok(enc, s) && err == nil && bytes(b) == b64dec(enc, s)
  case corrupt:
    ensures !b64ok(enc, s) && err != nil
extern (*encoding/base64.Encoding).EncodeToString(enc, b) (s)
  pure
  ensures s == b64enc(enc, bytes(b))

// encoding/hex
fn hex(string) string
fn hexok(string) bool
fn hexdec(string) string
axiom hex-dec: forall s: string {hex(s)} :: hexok(hex(s)) && hexdec(hex(s)) == s && len(hex(s)) == 2 * len(s)
extern encoding/hex.DecodeString(s) (b, err)
  pure
  fresh b
  case ok:
    ensures hexok(s) && err == nil && bytes(b) == hexdec(s)
  case corrupt:
    ensures !hexok(s) && err != nil

// encoding/binary: little endian 64 bit words
fn le64(string) int
fn enc64(int) string
axiom le64-range: forall s: string {le64(s)} :: 0 <= le64(s) && le64(s) <= 18446744073709551615
axiom le64-enc: forall v: int {enc64(v)} :: len(enc64(v)) == 8 && (0 <= v && v <= 18446744073709551615 ==> le64(enc64(v)) == v)
axiom enc64-le: forall s: string {le64(s)} :: len(s) == 8 ==> enc64(le64(s)) == s
extern (encoding/binary.littleEndian).Uint64(e, b) (v)
  pure
  requires len(b) >= 8
  ensures v == le64(substr(b, 0, 8))
extern (encoding/binary.littleEndian).PutUint64(e, b, v)
  requires len(b) >= 8
  modifies bytes(b)
  ensures bytes(b) == enc64(v) ++ old(substr(b, 8, len(b) - 8))

// crypto/sha256
fn sha256(string) string
axiom sha256-len: forall s: string {sha256(s)} :: len(sha256(s)) == 32
extern crypto/sha256.Sum256(b) (h)
  pure
  ensures h == sha256(bytes(b))

// time formatting: the label of an hour reads back as that hour, and labels of well-formed length are told apart
fn fmtTime(string, int, int) string
fn tparseOk(string, string) bool
fn tparse(string, string) int
extern time.Parse(layout, s) (t, err)
  pure
  case ok:
    ensures tparseOk(layout, s) && err == nil && ns(t) == tparse(layout, s) && loc(t) == 0
  case bad:
    ensures !tparseOk(layout, s) && err != nil
// wasNow holds of what the clock showed at some time of the run
fn wasNow(int) bool
extern time.Now() (t)
  pure
  ensures wasNow(ns(t))
// years 0 to 9999, the range of dates in certificates and labels
macro yearRange(n) = (-62167219200000000000 <= n && n < 253402300800000000000)
// the layouts of expiry labels
macro layH() = "2006-01-02-15"
macro layD() = "2006-01-02"
axiom hour-format: forall n: int {fmtTime("2006-01-02-15", n, 0)} :: yearRange(n) && n % 3600000000000 == 0 ==> tparseOk("2006-01-02-15", fmtTime("2006-01-02-15", n, 0)) && tparse("2006-01-02-15", fmtTime("2006-01-02-15", n, 0)) == n && len(fmtTime("2006-01-02-15", n, 0)) == 13 && substr(fmtTime("2006-01-02-15", n, 0), 4, 1) == "-" && substr(fmtTime("2006-01-02-15", n, 0), 10, 1) == "-"
axiom hour-parse: forall s: string {tparse("2006-01-02-15", s)} :: tparseOk("2006-01-02-15", s) ==> yearRange(tparse("2006-01-02-15", s)) && tparse("2006-01-02-15", s) % 3600000000000 == 0
axiom day-format: forall n: int {fmtTime("2006-01-02", n, 0)} :: yearRange(n) && n % 86400000000000 == 0 ==> tparseOk("2006-01-02", fmtTime("2006-01-02", n, 0)) && tparse("2006-01-02", fmtTime("2006-01-02", n, 0)) == n && len(fmtTime("2006-01-02", n, 0)) == 10 && substr(fmtTime("2006-01-02", n, 0), 1, 1) != "-"
axiom day-parse: forall s: string {tparse("2006-01-02", s)} :: tparseOk("2006-01-02", s) ==> yearRange(tparse("2006-01-02", s)) && tparse("2006-01-02", s) % 86400000000000 == 0 && len(s) == 10 && s == fmtTime("2006-01-02", tparse("2006-01-02", s), 0)

// strings.Split as a list of parts
fn nparts(string, string) int
fn part(string, string, int) string
axiom split-count: forall s: string, p: string {nparts(s, p)} :: nparts(s, p) >= 1
axiom split-3: forall s: string, p: string {nparts(s, p)} :: nparts(s, p) == 3 ==> s == part(s, p, 0) ++ p ++ part(s, p, 1) ++ p ++ part(s, p, 2)
extern strings.Split(s, sep) (r)
  pure
  fresh r
  ensures len(r) == nparts(s, sep)
  ensures forall i: int {r[i]} :: 0 <= i < len(r) ==> r[i] == part(s, sep, i)

// path joining: a function of the parts
fn join(string, string) string
