package storage

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

// TestVerifC04 tries commits, start-ups and restorations in all combinations of lock, epochs and failures.
func TestVerifC04(t *testing.T) {
	r := vNew(t, "c04", "commits under every combination of read-only storage, lock holder, epoch in storage (absent, 0, 1, 7, 2^64-2, 2^64-1, empty, not a number), epoch in the cache and failing cache operation; start-up with the same epochs; restoration against a cache server with a failure at every command")
	defer r.done()
	sts := []string{"-", "0", "1", "7", "18446744073709551614", "18446744073709551615", "", "x", "-1", "1.5"}
	for _, ro := range []bool{false, true} {
		for _, lock := range []string{"tok", "", "other", "tok ", "to"} {
			for _, se := range sts {
				for _, d := range []int64{-2, -1, 0, 1, 2, 3} {
					n := r.rng.Intn(8)
					if lock != "tok" && n < 5 && !r.thorough {
						continue
					}
					fail := []string{"", "", "", "HasCommitLock", "GetEpoch", "LoadAllLogStates", "NextEpoch", "KeysToChan"}[n]
					if lock != "tok" || ro {
						fail = ""
					}
					base, err := strconv.ParseUint(se, 10, 64)
					ce := base + uint64(d)
					r.run(map[string]interface{}{"commit": []interface{}{ro, lock, se, ce, fail}}, func() string {
						return c04Commit(r, ro, lock, se, err == nil || se == "-" || se == "", base, ce, fail)
					})
					if !ro && lock == "tok" {
						r.run(map[string]interface{}{"startup": []interface{}{se, ce, fail}}, func() string {
							return c04Startup(r, se, err == nil || se == "-" || se == "", base, ce, fail)
						})
					}
				}
			}
		}
	}
	for i := 0; i < r.size(150, 3000); i++ {
		old, nw := r.rng.Intn(5), r.rng.Intn(5)
		cmd := []string{"", "set", "del", "keys", "get", "setnx"}[r.rng.Intn(6)]
		at := 1 + r.rng.Intn(6)
		held := r.rng.Intn(5) == 0
		lost := r.rng.Intn(2) == 0
		r.run(map[string]interface{}{"restore": []interface{}{old, nw, cmd, at, held, lost}}, func() string {
			return c04Restore(old, nw, cmd, at, held, lost)
		})
	}
	for _, e := range []string{"-", "0", "1", "41", "9223372036854775806", "x"} {
		r.run(map[string]interface{}{"epoch": e}, func() string { return c04Epoch(e) })
	}
}

func c04Commit(r *vRun, ro bool, lock, se string, ok bool, base, ce uint64, fail string) string {
	dir := r.dir()
	os.MkdirAll(filepath.Join(dir, "serials"), 0755)
	c := newVCache(1)
	c.lock, c.epoch = lock, ce
	c.put(vSetKey("2095-03-04-05", "iss"), string([]byte{1, 2, 3}))
	c.states = []types.CTLogState{{LogID: vLogID(vLog(1)), ShortURL: "l1", MaxTimestamp: 5}}
	vWriteList(vFile(dir, "2001-01-01-01", "iss"), "2001-01-01-01", []string{"a"})
	os.WriteFile(filepath.Join(dir, "ct-logs.json"), []byte("[]\n"), 0644)
	if se != "-" {
		os.WriteFile(filepath.Join(dir, "epoch"), []byte(se+"\n"), 0644)
	}
	if se == "" {
		os.WriteFile(filepath.Join(dir, "epoch"), nil, 0644)
	}
	if fail != "" {
		c.fail[fail] = 1
	}
	before, cache := vTree(dir), c.snapshot()
	db, err := NewCertDatabase(c, dir, ro)
	if err != nil {
		return err.Error()
	}
	may := !ro && lock == "tok" && ok && (ce == base+1 || ce == 0 && base == 0)
	err = db.Commit("tok")
	if !may {
		if err == nil {
			return "success although the commit was not permitted"
		}
		if d := vDiff("storage after a refused commit", vTree(dir), before); d != "" {
			return d
		}
		if d := vDiff("cache after a refused commit", c.snapshot(), cache); d != "" {
			return d
		}
		if c.epoch != ce || c.lock != lock {
			return "epoch or lock changed by a refused commit"
		}
		return ""
	}
	if fail == "" && err != nil {
		return "permitted commit failed: " + err.Error()
	}
	if fail != "" && fail != "NextEpoch" && err == nil {
		return "success although " + fail + " failed"
	}
	if err != nil {
		if c.epoch != ce {
			return "epoch of the cache changed by a failed commit"
		}
		return ""
	}
	b, err := os.ReadFile(filepath.Join(dir, "epoch"))
	after := uint64(0)
	if err == nil && len(b) > 0 {
		after, err = strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
		if err != nil {
			return "epoch file: " + string(b)
		}
	}
	if string(b) != before["epoch"] || fail == "" {
		if c.epoch != after+1 {
			return fmt.Sprintf("after the commit the epochs are %d in the cache and %d in storage", c.epoch, after)
		}
	}
	return ""
}

func c04Startup(r *vRun, se string, ok bool, base, ce uint64, fail string) string {
	dir := r.dir()
	c := newVCache(1)
	c.epoch = ce
	in := []types.CTLogState{{LogID: "bmV3", ShortURL: "l1", MaxTimestamp: 5, MaxEntry: 9, LastUpdateTime: time.Unix(1600000000, 0).UTC()}, {ShortURL: "l2", MinEntry: 3}}
	c.states = []types.CTLogState{{LogID: "b2xk", ShortURL: "l1", MaxTimestamp: 77}, {ShortURL: "l9"}}
	old := append([]types.CTLogState{}, c.states...)
	js, _ := json.Marshal(in)
	os.WriteFile(filepath.Join(dir, "ct-logs.json"), js, 0644)
	if se != "-" {
		os.WriteFile(filepath.Join(dir, "epoch"), []byte(se+"\n"), 0644)
	}
	if se == "" {
		os.WriteFile(filepath.Join(dir, "epoch"), nil, 0644)
	}
	if fail == "GetEpoch" {
		c.fail[fail] = 1
	}
	if fail == "NextEpoch" {
		c.fail["Restore"] = 1
	}
	db, err := NewCertDatabase(c, dir, false)
	if err != nil {
		return err.Error()
	}
	err = db.EnsureCacheIsConsistent()
	match := ce == base+1 || ce == 0 && base == 0
	switch {
	case !ok || fail == "GetEpoch" || fail == "NextEpoch" && !match:
		if err == nil {
			return "success although an epoch could not be read or the restoration failed"
		}
		if c.epoch != ce || !reflect.DeepEqual(c.states, old) {
			return "the cache changed although it failed"
		}
	case match:
		if err != nil || c.epoch != ce || !reflect.DeepEqual(c.states, old) {
			return fmt.Sprintf("matching epochs: error %v, epoch %d", err, c.epoch)
		}
	default:
		if err != nil {
			return "failed: " + err.Error()
		}
		if c.epoch != base+1 {
			return fmt.Sprintf("the cache's epoch is %d, storage's %d", c.epoch, base)
		}
		return vDiff("log states after start-up", c.states, in)
	}
	return ""
}

func c04Restore(old, nw int, cmd string, at int, held, lost bool) string {
	s := newVRedis()
	defer s.close()
	rc := s.cache()
	s.lost = lost
	s.strs["epoch"] = "3"
	s.strs["lockfree"] = "x"
	s.sets["serials::2095-03-04-05::iss"] = map[string]bool{"e": true}
	for i := 0; i < old; i++ {
		s.strs[fmt.Sprintf("log::ct%d", i)] = "old"
	}
	if held {
		s.strs["lock::commit"] = "someone"
	}
	var in []types.CTLogState
	want := map[string]string{}
	for i := 0; i < nw; i++ {
		l := types.CTLogState{ShortURL: fmt.Sprintf("ct%d", 3+i), MaxEntry: uint64(i)}
		in = append(in, l)
		js, _ := json.Marshal(&l)
		want["log::"+l.ShortURL] = string(js)
	}
	logs := func() map[string]string {
		m := map[string]string{}
		for k, v := range s.strs {
			if strings.HasPrefix(k, "log::") {
				m[k] = v
			}
		}
		return m
	}
	msg := ""
	s.hook = func([]string) {
		if s.strs["epoch"] != "3" {
			if d := vDiff("the epoch was changed before the log positions were", logs(), want); d != "" {
				msg = d
			}
		}
	}
	if cmd != "" {
		s.failAt(cmd, at)
	}
	before := fmt.Sprint(s.strs)
	err := rc.Restore(12, in)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hook(nil)
	if msg != "" {
		return msg
	}
	if held {
		if err == nil || fmt.Sprint(s.strs) != before {
			return "restored while someone held the lock"
		}
		return ""
	}
	if err == nil {
		if d := vDiff("log positions restored", logs(), want); d != "" {
			return d
		}
		if s.strs["epoch"] != "12" {
			return "success, but the epoch is " + s.strs["epoch"]
		}
	}
	if cmd == "" && err != nil {
		return "failed although nothing failed: " + err.Error()
	}
	if cmd == "" && s.strs["lock::commit"] != "" {
		return "the lock was kept"
	}
	if s.strs["lockfree"] != "x" || !s.sets["serials::2095-03-04-05::iss"]["e"] {
		return "something else was changed"
	}
	return ""
}

func c04Epoch(e string) string {
	s := newVRedis()
	defer s.close()
	rc := s.cache()
	if e != "-" {
		s.strs["epoch"] = e
	}
	n, err := rc.GetEpoch()
	want, perr := strconv.ParseUint(e, 10, 64)
	if e == "-" {
		want, perr = 0, nil
	}
	if (err != nil) != (perr != nil) || err == nil && n != want {
		return fmt.Sprintf("epoch %d %v, want %d", n, err, want)
	}
	err = rc.NextEpoch()
	m, err2 := rc.GetEpoch()
	if perr == nil && (err != nil || err2 != nil || m != want+1) {
		return fmt.Sprintf("after %d comes %d (%v %v)", want, m, err, err2)
	}
	if perr != nil && err == nil {
		return "counting up succeeded on " + e
	}
	return ""
}
