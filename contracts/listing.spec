// ---- C07: listing bins by issuer ----
// a bin is its label and its issuer's id; labels are told apart by their length and their hyphens
macro isLabelH(e) = (len(e) == 13 && substr(e, 10, 1) == "-")
fn binId(string, string) string
axiom binId2: forall e: string, i: string {e ++ "::" ++ i} :: binId(e, i) == e ++ "::" ++ i
axiom binId: forall e: string, i: string {binId(e, i)} :: binId(e, i) == e ++ "::" ++ i
lemma binId-injective: forall e: string, i: string, f: string, j: string {binId(e, i), binId(f, j)} :: (len(e) == 10 || isLabelH(e)) && (len(f) == 10 || isLabelH(f)) && binId(e, i) == binId(f, j) ==> e == f && i == j
macro canon(l) = label(hourLabel(l), labelNs(l), 0)
// the name n is of three parts, and denotes the bin with label e of issuer i
macro named(n) = (nparts(n, "::") == 3)
macro denotes(n, e, i) = (nparts(n, "::") == 3 && labelOk(part(n, "::", 1)) && canon(part(n, "::", 1)) == e && part(n, "::", 2) == i)
const anyName: string
func (*storage.CertDatabase).GetIssuerAndDatesFromChannel(db, reader) (r, err)
  prop C07
  requires mine: exclusive(reader)
  requires none: forall n: string {n in delivered(reader)} :: !(n in delivered(reader))
  modifies delivered(reader)
  fresh r
  ensures ended: err == nil ==> closed(reader)
  ensures issuers: err == nil ==> (forall a: int, b: int {r[a], r[b]} :: 0 <= a < b && b < len(r) ==> issuerId(r[a].Issuer) != issuerId(r[b].Issuer))
  ensures bins: err == nil ==> (forall k: int, a: int, b: int {r[k].ExpDates[a], r[k].ExpDates[b]} :: 0 <= k < len(r) && 0 <= a < b && b < len(r[k].ExpDates) ==> expId(r[k].ExpDates[a]) != expId(r[k].ExpDates[b]))
  ensures present: err == nil ==> (forall k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) ==> wfExp(r[k].ExpDates[a]) && (exists n: string {n in sent(reader)} :: n in sent(reader) && denotes(n, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
  ensures all: err == nil && anyName in sent(reader) ==> named(anyName) && (labelOk(part(anyName, "::", 1)) ==> (exists k: int, a: int {r[k].ExpDates[a]} :: 0 <= k < len(r) && 0 <= a < len(r[k].ExpDates) && denotes(anyName, expId(r[k].ExpDates[a]), issuerId(r[k].Issuer))))
  inv key: $m: gomap[string]types.IssuerDate :: forall k: string {k in $m} :: k in $m ==> issuerId($m[k].Issuer) == k
  inv listed: $m: gomap[string]types.IssuerDate, $s: gomap[string]struct{} :: forall k: string, a: int {$m[k].ExpDates[a]} :: k in $m && 0 <= a < len($m[k].ExpDates) ==> wfExp($m[k].ExpDates[a]) && binId(expId($m[k].ExpDates[a]), k) in $s
  inv distinct: $m: gomap[string]types.IssuerDate :: forall k: string, a: int, b: int {$m[k].ExpDates[a], $m[k].ExpDates[b]} :: k in $m && 0 <= a < b && b < len($m[k].ExpDates) ==> expId($m[k].ExpDates[a]) != expId($m[k].ExpDates[b])
  inv apart: $m: gomap[string]types.IssuerDate :: forall k: string, l: string {k in $m, l in $m} :: k in $m && l in $m && k != l ==> ref($m[k].ExpDates) != ref($m[l].ExpDates)
  inv present: $m: gomap[string]types.IssuerDate :: forall k: string, a: int {$m[k].ExpDates[a]} :: k in $m && 0 <= a < len($m[k].ExpDates) ==> (exists n: string {n in delivered(reader)} {n in sent(reader)} :: n in delivered(reader) && denotes(n, expId($m[k].ExpDates[a]), k))
  inv from: forall n: string {n in delivered(reader)} :: n in delivered(reader) ==> n in sent(reader)
  inv three: anyName in delivered(reader) ==> named(anyName)
  inv all: $s: gomap[string]struct{} :: anyName in delivered(reader) && labelOk(part(anyName, "::", 1)) ==> binId(canon(part(anyName, "::", 1)), part(anyName, "::", 2)) in $s
  inv seen-issuer: $m: gomap[string]types.IssuerDate, $s: gomap[string]struct{} :: labelOk(part(anyName, "::", 1)) && binId(canon(part(anyName, "::", 1)), part(anyName, "::", 2)) in $s ==> part(anyName, "::", 2) in $m
  inv seen-label: $m: gomap[string]types.IssuerDate, $s: gomap[string]struct{} :: labelOk(part(anyName, "::", 1)) && binId(canon(part(anyName, "::", 1)), part(anyName, "::", 2)) in $s ==> (exists a: int {$m[part(anyName, "::", 2)].ExpDates[a]} :: 0 <= a < len($m[part(anyName, "::", 2)].ExpDates) && expId($m[part(anyName, "::", 2)].ExpDates[a]) == canon(part(anyName, "::", 1)))
  inv copied: $m: gomap[string]types.IssuerDate, $v: visited, $l: []types.IssuerDate :: forall j: int {$l[j]} :: 0 <= j < len($l) ==> issuerId($l[j].Issuer) in $v && issuerId($l[j].Issuer) in $m && $l[j].ExpDates == $m[issuerId($l[j].Issuer)].ExpDates
  inv once: $l: []types.IssuerDate :: forall a: int, b: int {$l[a], $l[b]} :: 0 <= a < b && b < len($l) ==> issuerId($l[a].Issuer) != issuerId($l[b].Issuer)
  inv every: $v: visited, $l: []types.IssuerDate :: forall k: string {k in $v} :: k in $v ==> (exists j: int {$l[j]} :: 0 <= j < len($l) && issuerId($l[j].Issuer) == k)
macro denotesAny(n) = (nparts(n, "::") == 3 && labelOk(part(n, "::", 1)))
