// ---- file system (trusted) ----
// fsHas[d] holds the names in directory d when the verified function starts; rmTried the paths given to os.Remove since
ghost fsHas: map[string]set[string]
ghost rmTried: set[string]
fn deName(iface) string
fn deIsDir(iface) bool
fn fsIsDir(string, string) bool
extern (io/fs.DirEntry).Name(d) (n)
  pure
  ensures n == deName(d)
extern (io/fs.DirEntry).IsDir(d) (b)
  pure
  ensures b == deIsDir(d)
// a listing shows only names that were there, and every one that has not been removed
extern os.ReadDir(p) (r, err)
  pure
  fresh r
  case ok:
    ensures err == nil
    ensures forall i: int {r[i]} :: 0 <= i < len(r) ==> deName(r[i]) in fsHas[p] && deIsDir(r[i]) == fsIsDir(p, deName(r[i]))
    ensures forall n: string {join(p, n)} :: n in fsHas[p] && !(join(p, n) in rmTried) ==> (exists i: int :: 0 <= i < len(r) && deName(r[i]) == n)
  case fail:
    ensures err != nil
// removing may fail; a directory that is not empty is not removed by the operating system
extern os.Remove(p) (err)
  set rmTried := rmTried[p := true]

// fsFile holds the files that exist and fsData their contents; open files read the content at opening
ghost fsFile: set[string]
ghost fsData: map[string]string
ghost fdPath: map[ref]string
ghost fdData: map[ref]string
fn errIs(iface, iface) bool
extern errors.Is(e, t) (r)
  pure
  ensures r == (e != nil && errIs(e, t))
extern os.Open(p) (f, err)
  pure
  case ok:
    fresh f
    ensures p in fsFile && f != nil && err == nil
    set fdPath := fdPath[ref(f) := p]
    set fdData := fdData[ref(f) := fsData[p]]
  case missing:
    ensures !(p in fsFile) && f == nil && err != nil && errIs(err, os.ErrNotExist)
  case fail:
    ensures f == nil && err != nil && !errIs(err, os.ErrNotExist)
extern (*os.File).Close(f) (err)
  pure

// scanners: the lines of what they read, in order; Err tells a failure from the end
ghost scData: map[ref]string
ghost scPos: map[ref]int
ghost scBad: set[ref]
extern bufio.NewScanner[*os.File](f) (s)
  pure
  fresh s
  ensures s != nil
  set scData := scData[ref(s) := fdData[ref(f)]]
  set scPos := scPos[ref(s) := 0]
  set scBad := scBad[ref(s) := false]
extern (*bufio.Scanner).Scan(s) (r)
  pure
  case line:
    ensures r && old(scPos[ref(s)]) < nlines(scData[ref(s)]) && !(ref(s) in scBad)
    set scPos := scPos[ref(s) := scPos[ref(s)] + 1]
  case end:
    ensures !r && scPos[ref(s)] == nlines(scData[ref(s)]) && !(ref(s) in scBad)
  case fail:
    ensures !r
    set scBad := scBad[ref(s) := true]
extern (*bufio.Scanner).Text(s) (r)
  pure
  ensures r == line(scData[ref(s)], scPos[ref(s)] - 1)
extern (*bufio.Scanner).Err(s) (err)
  pure
  ensures (err != nil) == (ref(s) in scBad)
