// ---- text as lines: app(c, l) is c followed by the line l ----
fn app(string, string) string
fn complete(string) bool   // empty, or ends with a newline
fn nlines(string) int      // lines a bufio.Scanner yields
fn line(string, int) string
fn noNl(string) bool       // no newline in it and no carriage return at its end
axiom lines-none: complete("") && nlines("") == 0
axiom lines-count: forall c: string {nlines(c)} :: nlines(c) >= 0
axiom lines-app: forall c: string, l: string {app(c, l)} :: complete(c) && noNl(l) ==> complete(app(c, l)) && nlines(app(c, l)) == nlines(c) + 1 && line(app(c, l), nlines(c)) == l
axiom lines-app-kept: forall c: string, l: string, k: int {line(app(c, l), k)} :: complete(c) && noNl(l) && 0 <= k < nlines(c) ==> line(app(c, l), k) == line(c, k)
axiom hex-noNl: forall s: string {hex(s)} :: noNl(hex(s))

// ---- writers (trusted): acc[w] is what the destination w has taken so far ----
ghost acc: map[iface]string
// buffered writers: their destination, everything written to them, and those that have failed (bufio keeps the first error)
ghost bwBase: map[ref]iface
ghost bwTotal: map[ref]string
ghost bwBad: set[ref]
macro isBuf(w) = istype(w, *bufio.Writer)
macro bufOf(w) = ref(as(w, *bufio.Writer))
extern bufio.NewWriter(w) (b)
  case same:
    ensures isBuf(w) && b == as(w, *bufio.Writer)
  case new:
    fresh b
    ensures !isBuf(w) && b != nil
    set bwBase := bwBase[ref(b) := w]
    set bwTotal := bwTotal[ref(b) := acc[w]]
    set bwBad := bwBad[ref(b) := false]
extern (*bufio.Writer).WriteString(b, s) (n, err)
  case ok:
    havoc acc[bwBase[ref(b)]]
    set bwTotal := bwTotal[ref(b) := bwTotal[ref(b)] ++ s]
    ensures err == nil && n == len(s)
  case fail:
    havoc acc[bwBase[ref(b)]]
    havoc bwTotal[ref(b)]
    set bwBad := bwBad[ref(b) := true]
    ensures err != nil
extern (*bufio.Writer).Write(b, s) (n, err)
  case ok:
    havoc acc[bwBase[ref(b)]]
    set bwTotal := bwTotal[ref(b) := bwTotal[ref(b)] ++ bytes(s)]
    ensures err == nil && n == len(s)
  case fail:
    havoc acc[bwBase[ref(b)]]
    havoc bwTotal[ref(b)]
    set bwBad := bwBad[ref(b) := true]
    ensures err != nil
extern (*bufio.Writer).WriteByte(b, c) (err)
  case ok:
    havoc acc[bwBase[ref(b)]]
    set bwTotal := bwTotal[ref(b) := bwTotal[ref(b)] ++ fromcode(c)]
    ensures err == nil
  case fail:
    havoc acc[bwBase[ref(b)]]
    havoc bwTotal[ref(b)]
    set bwBad := bwBad[ref(b) := true]
    ensures err != nil
extern (*bufio.Writer).Flush(b) (err)
  case ok:
    set acc := acc[bwBase[ref(b)] := bwTotal[ref(b)]]
    ensures !(ref(b) in bwBad) && err == nil
  case fail:
    havoc acc[bwBase[ref(b)]]
    set bwBad := bwBad[ref(b) := true]
    ensures err != nil
// where a list written to w ends up, and what is before it
macro dest(w) = (isBuf(w) ? bwBase[bufOf(w)] : w)
macro before(w) = (isBuf(w) ? bwTotal[bufOf(w)] : acc[w])
