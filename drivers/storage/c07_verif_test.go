package storage

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

// vBins is what a scan that reported the given names should list: bins by issuer, or an error.
func vBins(names []string) (map[string]bool, bool) {
	m := map[string]bool{}
	for _, n := range names {
		p := strings.Split(n, "::")
		if len(p) != 3 {
			return nil, false
		}
		l := p[1]
		t, err := time.Parse("2006-01-02-15", l)
		if err == nil {
			l = t.Format("2006-01-02-15")
		} else if t, err = time.Parse("2006-01-02", l); err == nil {
			l = t.Format("2006-01-02")
		} else {
			continue
		}
		m[l+" "+p[2]] = true
	}
	return m, true
}

func vListed(l []types.IssuerDate) (map[string]bool, string) {
	m := map[string]bool{}
	is := map[string]bool{}
	for _, x := range l {
		if is[x.Issuer.ID()] {
			return nil, "issuer " + x.Issuer.ID() + " is listed twice"
		}
		is[x.Issuer.ID()] = true
		for _, e := range x.ExpDates {
			k := e.ID() + " " + x.Issuer.ID()
			if m[k] {
				return nil, "bin " + k + " is listed twice"
			}
			m[k] = true
		}
	}
	return m, ""
}

func vSorted(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func TestVerifC07(t *testing.T) {
	r := vNew(t, "C07", "scans with duplicated, reordered and interleaved names of bins, hour and day labels, one-digit hours, labels that do not parse, names of other than three parts, and scans that fail; trees with foreign files and directories; non-trivial: more than one name")
	defer r.done()
	labels := []string{"2031-01-01-05", "2031-01-01-5", "2031-01-01", "2031-01-02", "2031-01-01-15", "2031-1-1", "x", "", "2031-01-01-25", "2030-12-31-23", "2031-01-01-00"}
	issuers := []string{"a", "b", "a ", "", "ab", "2031-01-01", "b=", "A"}
	for k := 0; k < r.size(300, 6000); k++ {
		var names []string
		for i := 0; i < r.rng.Intn(12); i++ {
			n := "serials::" + labels[r.rng.Intn(len(labels))] + "::" + issuers[r.rng.Intn(len(issuers))]
			if r.rng.Intn(40) == 0 {
				n = []string{"serials::", "serials::2031-01-01", "serials::2031-01-01::a::b", "serials::::"}[r.rng.Intn(4)]
			}
			for c := 0; c <= r.rng.Intn(3); c++ {
				names = append(names, n)
			}
		}
		r.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		fail := r.rng.Intn(6) == 0
		r.run(map[string]interface{}{"cache": names, "fail": fail}, func() string {
			c := newVCache(int64(k))
			c.extra = names
			if fail {
				c.fail["KeysToChan"] = 1
			}
			db, err := NewCertDatabase(c, r.dir(), false)
			if err != nil {
				return err.Error()
			}
			l, err := db.GetIssuerAndDatesFromCache()
			want, ok := vBins(names)
			if fail || !ok {
				if err == nil {
					return fmt.Sprintf("listed %v without an error", l)
				}
				return ""
			}
			if err != nil {
				return err.Error()
			}
			got, msg := vListed(l)
			if msg != "" {
				return msg
			}
			return vDiff("bins", vSorted(got), vSorted(want))
		})
	}
	for k := 0; k < r.size(150, 2500); k++ {
		var files []string
		for i := 0; i < r.rng.Intn(10); i++ {
			d := []string{"issuer::a", "issuer::b", "other", "issuer", "issuer::"}[r.rng.Intn(5)]
			n := "serials::" + labels[r.rng.Intn(len(labels))] + "::" + strings.TrimPrefix(d, "issuer::")
			switch r.rng.Intn(10) {
			case 0:
				n = []string{"README", "tmp", "zz", "serialz", "serials", "serials:", "Serials::2031-01-01::a", "~", "serials::~"}[r.rng.Intn(8)]
			case 1:
				n = ".serials::2031-01-01::a.tmp123"
			case 2:
				n = "serials::2031-01-01-07::c"
			}
			if r.rng.Intn(40) == 0 {
				n = "serials::2031-01-01"
			}
			files = append(files, d+"/"+n)
		}
		r.run(map[string]interface{}{"files": files}, func() string {
			dir := r.dir()
			db, err := NewCertDatabase(newVCache(1), dir, false)
			if err != nil {
				return err.Error()
			}
			os.WriteFile(filepath.Join(dir, "serials", "issuer::file"), []byte("x"), 0644)
			var names []string
			for _, f := range files {
				p := filepath.Join(dir, "serials", f)
				os.MkdirAll(filepath.Dir(p), 0755)
				if err := os.WriteFile(p, []byte("x"), 0644); err != nil {
					return err.Error()
				}
				if strings.HasPrefix(f, "issuer::") && strings.HasPrefix(filepath.Base(f), "serials::") {
					names = append(names, filepath.Base(f))
				}
			}
			l, err := db.GetIssuerAndDatesFromStorage()
			want, ok := vBins(names)
			if !ok {
				if err == nil {
					return fmt.Sprintf("listed %v without an error", l)
				}
				return ""
			}
			if err != nil {
				return err.Error()
			}
			got, msg := vListed(l)
			if msg != "" {
				return msg
			}
			return vDiff("bins", vSorted(got), vSorted(want))
		})
	}
}
