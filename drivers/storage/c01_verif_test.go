package storage

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

type c01Case struct {
	Seed   int64
	Bins   int    // bins in the cache
	Each   int    // entries per bin
	Fail   string // failing cache operation
	At     int
	Limit  int    // bytes a file may have
	Block  string // what stands in the way in storage
	During int    // entries that arrive in the middle
	Dup    int
}

type c01World struct {
	dir   string
	c     *vCache
	orig  map[string]map[string]bool // cache entries the commit began with
	files map[string][]string        // stored lists it began with
	cov   string
	label map[string]string
	iss   map[string]string
	cut   uint64
	mu    sync.Mutex
	msg   string
	odd   string // a list that is broken from the start
}

func c01Labels() []string {
	return []string{"2095-03-04-05", "2095-03-04-06", "2095-03-04", "2096-01-01-00", "2097-12-31-23", "2095-12-05"}
}

func (w *c01World) key(b int) (label, iss string) {
	ls := c01Labels()
	return ls[b%len(ls)], fmt.Sprintf("issuer%d", b/len(ls))
}

// stored is the set of serials in a list; an unreadable one has none.
func (w *c01World) stored(label, iss string) (map[string]bool, string) {
	p := vFile(w.dir, label, iss)
	if fi, err := os.Stat(p); err != nil || fi.IsDir() {
		return nil, ""
	}
	l, err := vReadList(p, label)
	if err != nil && w.odd == p {
		return nil, ""
	}
	if err != nil {
		return nil, p + ": " + err.Error()
	}
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m, ""
}

// check looks for a lost entry, as after an abrupt stop now.
func (w *c01World) check(when string) {
	cov, _ := os.ReadFile(filepath.Join(w.dir, "ct-logs.json"))
	published := string(cov) != w.cov
	bad := func(f string, a ...interface{}) {
		w.mu.Lock()
		if w.msg == "" {
			w.msg = when + ": " + fmt.Sprintf(f, a...)
		}
		w.mu.Unlock()
	}
	for k, es := range w.orig {
		label, iss := w.label[k], w.iss[k]
		in := map[string]bool{}
		for e := range es {
			in[e] = w.c.has(k, e)
		}
		have, err := w.stored(label, iss)
		if err != "" {
			bad("%s", err)
		}
		for e := range es {
			s := e
			covered := true
			if len(e) >= 40 {
				s = e[40:]
				var ts uint64
				for i := 7; i >= 0; i-- {
					ts = ts<<8 | uint64(e[i])
				}
				covered = e[8:40] == string(logBytes(0)) && ts <= w.cut
			}
			if !in[e] && !have[s] {
				bad("entry %x of %s is neither in the cache nor in storage", e, k)
			}
			if published && covered && !have[s] {
				bad("the coverage was replaced and entry %x of %s is not stored", e, k)
			}
		}
	}
	for p, l := range w.files {
		f := strings.Split(p, "\x00")
		have, err := w.stored(f[0], f[1])
		if err != "" {
			bad("%s", err)
		}
		for _, s := range l {
			if !have[s] {
				bad("serial %x, stored in %s of %s, is gone", s, f[0], f[1])
			}
		}
	}
}

func logBytes(i int) []byte { l := vLog(i); return l[:] }

func c01Run(cs c01Case, dir string) string {
	w := &c01World{dir: dir, c: newVCache(cs.Seed), orig: map[string]map[string]bool{}, files: map[string][]string{}, label: map[string]string{}, iss: map[string]string{}}
	c := w.c
	c.lock = "tok"
	c.dup = cs.Dup
	r := c.rng
	w.cut = 1600000000000
	c.states = []types.CTLogState{{LogID: vLogID(vLog(0)), MMD: 86400, MaxTimestamp: w.cut + 86400000, ShortURL: "log0"}}
	for b := 0; b < cs.Bins; b++ {
		label, iss := w.key(b)
		k := vSetKey(label, iss)
		w.label[k], w.iss[k] = label, iss
		if r.Intn(2) == 0 {
			var l []string
			for i := 0; i < 1+r.Intn(5); i++ {
				l = append(l, string(vSerial(r)))
			}
			vWriteList(vFile(dir, label, iss), label, l)
			w.files[label+"\x00"+iss] = l
		}
		w.orig[k] = map[string]bool{}
		for i := 0; i < cs.Each; i++ {
			ts := w.cut + uint64(r.Intn(5)) - 3
			e := vEntry(ts, vLog(r.Intn(5)/4), vSerial(r))
			if r.Intn(10) == 0 {
				e = string(vSerial(r))
			}
			if l := w.files[label+"\x00"+iss]; l != nil && r.Intn(5) == 0 {
				e = vEntry(ts, vLog(0), []byte(l[0]))
			}
			c.put(k, e)
			w.orig[k][e] = true
		}
	}
	db, err := NewCertDatabase(c, dir, false)
	if err != nil {
		return err.Error()
	}
	if r.Intn(2) == 0 {
		w.cov = "[]\n"
		os.WriteFile(filepath.Join(dir, "ct-logs.json"), []byte(w.cov), 0644)
	}
	label, iss := w.key(r.Intn(cs.Bins))
	switch cs.Block {
	case "issuer": // a file where the issuer's directory should be
		if len(w.files) == 0 {
			os.WriteFile(filepath.Join(dir, "serials", "issuer::"+iss), []byte("x"), 0644)
		}
	case "list": // a directory where a list should be
		p := vFile(dir, label, iss)
		if w.files[label+"\x00"+iss] == nil {
			os.MkdirAll(filepath.Join(p, "sub"), 0755)
		}
	case "header":
		p := vFile(dir, label, iss)
		os.MkdirAll(filepath.Dir(p), 0755)
		b, _ := os.ReadFile(p)
		delete(w.files, label+"\x00"+iss)
		os.WriteFile(p, append([]byte("@00\n"), b...), 0644)
		w.odd = p // what is there is not a list; the entries of the bin have to stay in the cache
	case "coverage":
		os.RemoveAll(filepath.Join(dir, "ct-logs.json"))
		os.MkdirAll(filepath.Join(dir, "ct-logs.json", "sub"), 0755)
		w.cov = ""
	case "epoch":
		os.MkdirAll(filepath.Join(dir, "epoch", "sub"), 0755)
	}
	if cs.Fail != "" {
		c.fail[cs.Fail] = cs.At
	}
	var n int32
	c.hook = func(op string) {
		w.check("at " + op)
		if int(atomic.AddInt32(&n, 1)) == 4 {
			for i := 0; i < cs.During; i++ {
				k := vSetKey(w.key(i % cs.Bins))
				c.mu.Lock()
				c.put(k, vEntry(w.cut-5, vLog(0), []byte(fmt.Sprintf("late%d", i))))
				c.mu.Unlock()
			}
		}
	}
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
				w.check("in the middle")
				time.Sleep(200 * time.Microsecond)
			}
		}
	}()
	undo := func() {}
	if cs.Limit > 0 {
		undo = vLimitFiles(uint64(cs.Limit))
	}
	err = db.Commit("tok")
	undo()
	close(stop)
	<-done
	c.hook = nil
	w.check("at the end")
	if w.msg == "" && err == nil && cs.Fail == "" && cs.Limit == 0 && cs.Block == "" {
		cov, _ := os.ReadFile(filepath.Join(dir, "ct-logs.json"))
		if string(cov) == w.cov {
			return "success, but the coverage was not replaced"
		}
	}
	if w.msg == "" && cs.During > 0 {
		for i := 0; i < cs.During; i++ {
			label, iss := w.key(i % cs.Bins)
			s := fmt.Sprintf("late%d", i)
			have, _ := w.stored(label, iss)
			if int(n) >= 4 && !c.has(vSetKey(label, iss), vEntry(w.cut-5, vLog(0), []byte(s))) && !have[s] {
				return "an entry that arrived during the commit is gone: " + s
			}
		}
	}
	return w.msg
}

// TestVerifC01Child runs one case of the calling test in a process of its own.
func TestVerifC01Child(t *testing.T) {
	js := os.Getenv("C01_CASE")
	if js == "" {
		t.Skip()
	}
	var cs c01Case
	json.Unmarshal([]byte(js), &cs)
	if m := c01Run(cs, os.Getenv("C01_DIR")); m != "" {
		fmt.Println("C01-FAIL " + hex.EncodeToString([]byte(m)))
	}
}

// TestVerifC01 commits with failures at every kind of place and looks for lost entries at every cache operation and in between.
func TestVerifC01(t *testing.T) {
	r := vNew(t, "c01", "commits of 1 to 8 bins with up to 20 entries and lists already stored, with each cache operation failing in turn, files that cannot grow, obstacles in storage and entries that arrive meanwhile; at every cache operation, and all the time in between, every entry must be in the cache or stored and no covered entry unstored under replaced coverage")
	defer r.done()
	ops := []string{"", "HasCommitLock", "GetEpoch", "LoadAllLogStates", "KeysToChan", "SetRemove", "NextEpoch", "SetToChan", "SetList"}
	blocks := []string{"", "", "", "issuer", "list", "header", "coverage", "epoch"}
	for k := 0; k < r.size(160, 3000); k++ {
		cs := c01Case{Seed: r.rng.Int63(), Bins: 1 + r.rng.Intn(8), Each: r.rng.Intn(20), Dup: r.rng.Intn(3)}
		switch r.rng.Intn(5) {
		case 0, 1:
			cs.Fail = ops[r.rng.Intn(len(ops))]
			cs.At = 1 + r.rng.Intn(cs.Bins)
		case 2:
			cs.Limit = []int{1, 19, 20, 40, 64, 100, 300}[r.rng.Intn(7)]
		case 3:
			cs.Block = blocks[r.rng.Intn(len(blocks))]
		}
		if r.rng.Intn(3) == 0 {
			cs.During = 1 + r.rng.Intn(6)
		}
		r.run(cs, func() string {
			dir := r.dir()
			if cs.Fail != "SetToChan" && cs.Fail != "SetList" {
				return c01Run(cs, dir)
			}
			js, _ := json.Marshal(cs)
			cmd := exec.Command(os.Args[0], "-test.run", "^TestVerifC01Child$")
			cmd.Env = append(os.Environ(), "C01_CASE="+string(js), "C01_DIR="+dir)
			out, _ := cmd.CombinedOutput()
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "C01-FAIL ") {
					b, _ := hex.DecodeString(strings.TrimPrefix(l, "C01-FAIL "))
					return string(b)
				}
			}
			return ""
		})
	}
}
