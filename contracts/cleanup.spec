// ---- C05: clean-up of expired lists ----
macro serialsDir(db) = join(db.storageDir, "serials")
macro issuerDirName(n) = prefixof("issuer::", n)
// the list named n is over at time t (in milliseconds)
macro binOver(n, t) = (nparts(n, "::") == 3 && labelOk(part(n, "::", 1)) && labelEnd(part(n, "::", 1)) - 1000000 < t)
// what clean-up may pass to os.Remove: the least set with these members
fn mayRemove(string, string, int) bool
axiom mayRemove-dir: forall s: string, d: string, t: int {mayRemove(s, join(s, d), t)} :: issuerDirName(d) ==> mayRemove(s, join(s, d), t)
axiom mayRemove-list: forall s: string, d: string, n: string, t: int {mayRemove(s, join(join(s, d), n), t)} :: issuerDirName(d) && binOver(n, t) ==> mayRemove(s, join(join(s, d), n), t)
// an arbitrary path; an arbitrary issuer directory and list in it
const anyPath, anyDir, anyList: string

func (*storage.CertDatabase).serialsDir(db) (r)
  prop C05
  requires nonnil: db != nil
  ensures r == serialsDir(db)

macro theList(db) = join(join(serialsDir(db), anyDir), anyList)
func (*storage.CertDatabase).removeExpiredSerialsFromStorage(db, t) (err)
  prop C05
  requires nonnil: db != nil
  havoc rmTried
  ensures only-expired: anyPath in rmTried && !(anyPath in old(rmTried)) ==> mayRemove(serialsDir(db), anyPath, ns(t))
  ensures all-expired: err == nil && anyDir in fsHas[serialsDir(db)] && !(join(serialsDir(db), anyDir) in old(rmTried)) && issuerDirName(anyDir) && fsIsDir(serialsDir(db), anyDir) && anyList in fsHas[join(serialsDir(db), anyDir)] && binOver(anyList, ns(t)) ==> theList(db) in rmTried
  inv safe: anyPath in rmTried && !(anyPath in old(rmTried)) ==> mayRemove(serialsDir(db), anyPath, ns(t))
  inv kept: theList(db) in loopentry(rmTried) ==> theList(db) in rmTried
  inv done-dirs: $i: phi int, $ds: []fs.DirEntry :: forall j: int {deName($ds[j])} :: 0 <= j < $i && deName($ds[j]) == anyDir && issuerDirName(anyDir) && deIsDir($ds[j]) && anyList in fsHas[join(serialsDir(db), anyDir)] && binOver(anyList, ns(t)) ==> theList(db) in rmTried
  inv done-files: $i: phi int, $fs: []fs.DirEntry, $d: string :: forall j: int {deName($fs[j])} :: 0 <= j < $i && $d == join(serialsDir(db), anyDir) && deName($fs[j]) == anyList && binOver(anyList, ns(t)) ==> theList(db) in rmTried
