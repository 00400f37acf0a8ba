// ---- C05/C03: expiry labels ----
macro hourLabel(s) = (len(s) > 10 && tparseOk("2006-01-02-15", s))
macro dayLabel(s) = tparseOk("2006-01-02", s)
macro labelOk(s) = (hourLabel(s) || dayLabel(s))
macro labelNs(s) = (hourLabel(s) ? tparse("2006-01-02-15", s) : tparse("2006-01-02", s))
// the first instant after the hour or day a label names
macro labelEnd(s) = (hourLabel(s) ? tparse("2006-01-02-15", s) + 3600000000000 : tparse("2006-01-02", s) + 86400000000000)
// the label of a bin
fn label(bool, int, int) string
axiom label-def: forall h: bool, n: int, l: int {label(h, n, l)} :: label(h, n, l) == (h ? fmtTime("2006-01-02-15", n, l) : fmtTime("2006-01-02", n, l))
macro expId(e) = label(e.hourResolution, ns(e.date), loc(e.date))
// what every ExpDate built by its constructors satisfies
macro wfExp(e) = (loc(e.date) == 0 && yearRange(ns(e.date)) && (e.hourResolution ? ns(e.date) % 3600000000000 == 0 : ns(e.date) % 86400000000000 == 0))

func types.NewExpDateFromTime(t) (e)
  prop C03 C05
  nopanic
  assume yearRange(ns(t))
  ensures hour: e.hourResolution && ns(e.date) <= ns(t) && ns(t) < ns(e.date) + 3600000000000 && ns(e.date) % 3600000000000 == 0
  ensures utc: loc(e.date) == 0
  ensures wf: wfExp(e)

func types.NewExpDate(s) (e, err)
  prop C05 C07
  nopanic
  case label:
    ensures labelOk(s) && err == nil
    ensures ns(e.date) == labelNs(s) && loc(e.date) == 0 && e.hourResolution == hourLabel(s)
    ensures ns(e.lastGood) == labelEnd(s) - 1000000
    ensures wfExp(e)
  case other:
    ensures !labelOk(s) && err != nil
  // a label that a bin produces reads back as that bin
  ensures hour-again: forall n: int {fmtTime("2006-01-02-15", n, 0)} :: yearRange(n) && n % 3600000000000 == 0 && s == fmtTime("2006-01-02-15", n, 0) ==> err == nil && e.hourResolution && ns(e.date) == n && loc(e.date) == 0
  ensures day-again: forall n: int {fmtTime("2006-01-02", n, 0)} :: yearRange(n) && n % 86400000000000 == 0 && s == fmtTime("2006-01-02", n, 0) ==> err == nil && !e.hourResolution && ns(e.date) == n && loc(e.date) == 0

func (types.ExpDate).IsExpiredAt(e, t) (r)
  prop C05 C20
  nopanic
  ensures r == (ns(e.lastGood) < ns(t))
func (types.ExpDate).ExpireTime(e) (r)
  prop C03 C05
  nopanic
  ensures r == e.date
func (types.ExpDate).ID(e) (r)
  prop C03 C05 C07
  nopanic
  ensures r == expId(e)
func (types.ExpDate).Unix(e) (r)
  prop C06
  nopanic
  ensures r == ns(e.date) / 1000000000
