package storage

import (
	"encoding/hex"
	"fmt"
	"testing"

	types "github.com/mozilla/crlite/go"
)

type c02State struct {
	Log   int
	MMD   uint64
	MaxTS uint64
	Bad   string
}
type c02Entry struct {
	Log    int
	TS     uint64
	Serial string
	Raw    string
}

// TestVerifC02 commits random entries around the cutoffs of random log states and compares what moved.
func TestVerifC02(t *testing.T) {
	r := vNew(t, "C02", "random log states (also malformed ids and delays longer than the log) and entries at, just below and just above the cutoffs, of unknown logs and without log data; non-trivial: at least one state")
	defer r.done()
	for k := 0; k < r.size(150, 2500); k++ {
		var sts []c02State
		for i := 0; i < r.rng.Intn(4); i++ {
			s := c02State{Log: i, MMD: uint64(r.rng.Intn(4)) * 43200, MaxTS: uint64(r.rng.Int63n(3) * 1600000000000)}
			switch r.rng.Intn(6) {
			case 0:
				s.MMD = 1 << 40
			case 1:
				s.MaxTS = s.MMD*1000 + uint64(r.rng.Intn(3)) - 1
			case 2:
				s.Bad = []string{"!!", "AAAA", ""}[r.rng.Intn(3)]
			case 3:
				s.MaxTS += uint64(r.rng.Intn(2000))
			}
			sts = append(sts, s)
		}
		cut := func(s c02State) uint64 {
			if s.MaxTS < s.MMD*1000 {
				return 0
			}
			return s.MaxTS - s.MMD*1000
		}
		var es []c02Entry
		for i := 0; i < 1+r.rng.Intn(8); i++ {
			e := c02Entry{Log: r.rng.Intn(5), Serial: hex.EncodeToString(vSerial(r.rng))}
			e.TS = uint64(r.rng.Int63n(2000000000000))
			if e.Log < len(sts) && r.rng.Intn(4) > 0 {
				e.TS = cut(sts[e.Log]) + uint64(r.rng.Intn(3)) - 1
			}
			if r.rng.Intn(10) == 0 {
				e = c02Entry{Raw: hex.EncodeToString(vSerial(r.rng))}
			}
			es = append(es, e)
		}
		r.run(map[string]interface{}{"states": sts, "entries": es}, func() string {
			dir := r.dir()
			c := newVCache(int64(k))
			c.lock = "tok"
			for _, s := range sts {
				id := vLogID(vLog(s.Log))
				if s.Bad != "" {
					id = s.Bad
					if s.Bad == "!!" {
						id = "!!" + id
					}
				}
				c.states = append(c.states, types.CTLogState{LogID: id, MMD: s.MMD, MaxTimestamp: s.MaxTS, ShortURL: fmt.Sprint("log", s.Log)})
			}
			label, iss := "2095-03-04-05", "theissuer"
			key := vSetKey(label, iss)
			covered := map[string]bool{}
			all := map[string]string{}
			for _, e := range es {
				sb, _ := hex.DecodeString(e.Serial)
				v := vEntry(e.TS, vLog(e.Log), sb)
				cov := false
				if e.Raw != "" {
					sb, _ = hex.DecodeString(e.Raw)
					v = string(sb)
					cov = true
				} else {
					for _, s := range sts {
						if s.Log == e.Log && s.Bad == "" && e.TS <= cut(s) {
							cov = true
						}
					}
				}
				c.put(key, v)
				covered[v] = cov
				all[v] = string(sb)
			}
			db, err := NewCertDatabase(c, dir, false)
			if err != nil {
				return err.Error()
			}
			if err := db.Commit("tok"); err != nil {
				return "commit failed: " + err.Error()
			}
			want := map[string]bool{}
			for v, cov := range covered {
				if cov {
					want[all[v]] = true
				}
				if c.has(key, v) == cov {
					return fmt.Sprintf("entry %x: covered %v, still in the cache: %v", v, cov, !cov)
				}
			}
			got, err := vReadList(vFile(dir, label, iss), label)
			if err != nil {
				return err.Error()
			}
			var w []string
			for s := range want {
				w = append(w, s)
			}
			return vDiff("stored serials", vHex(got), vHex(w))
		})
	}
}
