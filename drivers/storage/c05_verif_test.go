package storage

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

func TestVerifC05(t *testing.T) {
	r := vNew(t, "C05", "directories of lists with hour and day labels around the time of the clean-up, malformed names, foreign files and directories; and labels of random times; non-trivial: all")
	defer r.done()
	now := time.Date(2031, 5, 6, 7, 8, 9, 123e6, time.UTC)
	for k := 0; k < r.size(150, 2500); k++ {
		at := now.Add(time.Duration(r.rng.Intn(200)) * time.Hour)
		if r.rng.Intn(2) == 0 {
			at = at.Truncate(time.Hour).Add(time.Duration(r.rng.Intn(5)-2) * time.Millisecond)
		}
		if r.rng.Intn(3) == 0 {
			at = at.Truncate(24 * time.Hour).Add(time.Duration(r.rng.Intn(5)-2) * time.Millisecond)
		}
		var names []string
		for i := 0; i < 1+r.rng.Intn(7); i++ {
			var l string
			switch r.rng.Intn(8) {
			case 0, 1, 2:
				l = at.Add(time.Duration(r.rng.Intn(5)-2) * time.Hour).Format("2006-01-02-15")
			case 3, 4:
				l = at.Add(time.Duration(r.rng.Intn(5)-2) * 24 * time.Hour).Format("2006-01-02")
			case 5:
				l = "2001-01-01-01"
			default:
				l = []string{"garbage", "2001-13-01", "2001-01-01-25", "", "2001-01-01-", "2001-01-01-01-01"}[r.rng.Intn(6)]
			}
			d := []string{"issuer::a", "issuer::b", "other", "issuer"}[r.rng.Intn(4)]
			n := "serials::" + l + "::" + strings.TrimPrefix(d, "issuer::")
			if r.rng.Intn(8) == 0 {
				n = []string{l, "serials::" + l, "serials::" + l + "::a::b", "2001-01-01.tmp"}[r.rng.Intn(4)]
			}
			if n == "" {
				n = "x"
			}
			names = append(names, d+"/"+n)
		}
		r.run(map[string]interface{}{"at": at.Format(time.RFC3339Nano), "files": names}, func() string {
			dir := r.dir()
			db, err := NewCertDatabase(newVCache(1), dir, false)
			if err != nil {
				return err.Error()
			}
			for _, n := range names {
				p := filepath.Join(dir, "serials", n)
				os.MkdirAll(filepath.Dir(p), 0755)
				os.WriteFile(p, []byte("x"), 0644)
			}
			os.WriteFile(filepath.Join(dir, "epoch"), []byte("3\n"), 0644)
			os.WriteFile(filepath.Join(dir, "serials", "issuer::file"), []byte("3\n"), 0644)
			if err := db.removeExpiredSerialsFromStorage(at); err != nil {
				return err.Error()
			}
			for _, n := range names {
				_, err := os.Stat(filepath.Join(dir, "serials", n))
				there := err == nil
				parts := strings.Split(filepath.Base(n), "::")
				over := false
				if strings.HasPrefix(n, "issuer::") && len(parts) == 3 {
					if h, err := time.Parse("2006-01-02-15", parts[1]); err == nil {
						over = at.UnixMilli() >= h.Add(time.Hour).UnixMilli()
					} else if d, err := time.Parse("2006-01-02", parts[1]); err == nil {
						over = at.UnixMilli() >= d.Add(24*time.Hour).UnixMilli()
					}
				}
				if there == over && !(over == true && !there) {
					return fmt.Sprintf("%s at %s: expired %v, still there %v", n, at.Format(time.RFC3339Nano), over, there)
				}
			}
			for _, f := range []string{"epoch", "serials/issuer::file"} {
				if _, err := os.Stat(filepath.Join(dir, f)); err != nil {
					return "deleted " + f
				}
			}
			return ""
		})
	}
	for k := 0; k < r.size(300, 5000); k++ {
		x := time.Unix(r.rng.Int63n(8000000000)-2000000000, r.rng.Int63n(1e9)).In(time.FixedZone("z", (r.rng.Intn(48)-24)*1800))
		r.run(map[string]interface{}{"time": x.String()}, func() string {
			e := types.NewExpDateFromTime(x)
			l := e.ID()
			if l != x.UTC().Format("2006-01-02-15") {
				return fmt.Sprintf("label %s of %s", l, x.UTC())
			}
			b, err := types.NewExpDate(l)
			if err != nil {
				return err.Error()
			}
			if b.ID() != l || b.Unix() != e.Unix() || !b.ExpireTime().Equal(e.ExpireTime()) {
				return fmt.Sprintf("%s reads back as %s", l, b)
			}
			dl := x.UTC().Format("2006-01-02")
			d, err := types.NewExpDate(dl)
			if err != nil {
				return err.Error()
			}
			if d.ID() != dl {
				return fmt.Sprintf("%s reads back as %s", dl, d)
			}
			for _, z := range []struct {
				t time.Time
				w bool
			}{{x, false}, {x.UTC().Truncate(time.Hour).Add(time.Hour), true}, {x.UTC().Truncate(time.Hour).Add(time.Hour - 2*time.Millisecond), false}} {
				if b.IsExpiredAt(z.t) != z.w && !(z.t.Nanosecond() > 998999999) {
					return fmt.Sprintf("bin %s expired at %s: %v", l, z.t, !z.w)
				}
			}
			return ""
		})
	}
}
