package storage

import (
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

// vFaulty fails, or takes only a part, once n bytes were written.
type vFaulty struct {
	buf  []byte
	left int
	part bool
}

func (w *vFaulty) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	n := 0
	if w.part {
		n = w.left
		w.buf = append(w.buf, p[:n]...)
	}
	w.left = 0
	return n, errors.New("no space")
}

func TestVerifC06(t *testing.T) {
	r := vNew(t, "C06", "lists of 0 to 400 random serials with duplicates written to writers that fail at random places, read back from disk for the same and for another bin; damaged first lines; merged lists; non-trivial: all")
	defer r.done()
	for k := 0; k < r.size(250, 4000); k++ {
		n := r.rng.Intn(6)
		switch r.rng.Intn(5) {
		case 0:
			n = r.rng.Intn(400)
		case 1:
			n = 2 + r.rng.Intn(12)
		}
		var ss []types.Serial
		var want []string
		for i := 0; i < n; i++ {
			b := vSerial(r.rng)
			switch r.rng.Intn(10) {
			case 0:
				if i > 0 {
					b = []byte(ss[r.rng.Intn(i)].BinaryString())
				}
			case 1:
				b = []byte{}
			case 2:
				b = append(append([]byte{}, b...), b...)
			case 3:
				if i > 0 { // a proper prefix of another one
					p := []byte(ss[r.rng.Intn(i)].BinaryString())
					b = p[:len(p)/2]
				}
			case 4:
				b = make([]byte, r.rng.Intn(3000))
				r.rng.Read(b)
			}
			ss = append(ss, types.NewSerialFromBytes(append([]byte{}, b...)))
			want = append(want, string(b))
		}
		at := time.Unix(int64(r.rng.Intn(1<<32)), int64(r.rng.Intn(1e9)))
		if r.rng.Intn(10) == 0 {
			at = at.AddDate(200, 0, 0)
		}
		exp := types.NewExpDateFromTime(at)
		iss := types.NewIssuerFromString([]string{"issuer", "other-_="}[r.rng.Intn(2)])
		total := 18
		for _, s := range want {
			total += 2*len(s) + 1
		}
		limit := total
		switch r.rng.Intn(3) {
		case 0:
			limit = r.rng.Intn(total + 1)
		case 1:
			limit = total - r.rng.Intn(4)
		}
		part := r.rng.Intn(2) == 0
		damage := r.rng.Intn(5)
		r.run(map[string]interface{}{"serials": vHexShort(want), "n": n, "expiry": exp.ID(), "unix": at.Unix(), "bytes": total, "room": limit, "partial": part, "damage": damage}, func() string {
			w := &vFaulty{left: limit, part: part}
			err := WriteSerialList(w, exp, iss, ss)
			if err == nil && limit < total {
				return fmt.Sprintf("wrote %d of %d bytes and reported no error", len(w.buf), total)
			}
			if err != nil && limit >= total {
				return "failed on a working writer: " + err.Error()
			}
			if err == nil {
				dir := r.dir()
				defer os.RemoveAll(dir)
				db, e := NewCertDatabase(newVCache(1), dir, false)
				if e != nil {
					return e.Error()
				}
				p := vFile(dir, exp.ID(), iss.ID())
				os.MkdirAll(filepath.Dir(p), 0755)
				if e := os.WriteFile(p, w.buf, 0644); e != nil {
					return e.Error()
				}
				got, e := db.ReadSerialsFromStorage(exp, iss)
				if e != nil {
					return "reading it back: " + e.Error()
				}
				var gs []string
				for _, g := range got {
					gs = append(gs, g.BinaryString())
				}
				if d := vSame(gs, want); d != "" {
					return "read back: " + d
				}
				// through the writer's own path, and with a line that names another bin
				bad := append([]byte{}, w.buf...)
				switch damage {
				case 0:
					bad[16]++
				case 1:
					bad[0] = '0'
				case 2:
					bad = bad[1:]
				case 3:
					bad = []byte(fmt.Sprintf("@%016x\n", vUnix(exp.ID())+1) + string(bad[18:]))
				default:
					bad = append([]byte("\n"), bad...)
				}
				if e := os.WriteFile(p, bad, 0644); e != nil {
					return e.Error()
				}
				if _, e := db.ReadSerialsFromStorage(exp, iss); e == nil {
					return fmt.Sprintf("a list starting with %q was accepted for %s", bad[:18], exp.ID())
				}
				other := types.NewIssuerFromString("nobody")
				if l, e := db.ReadSerialsFromStorage(exp, other); e != nil || len(l) != 0 {
					return fmt.Sprintf("no file: %v %v", l, e)
				}
			}
			in := append([]types.Serial{}, ss...)
			out := types.SerialList(in).Dedup()
			m := map[string]bool{}
			var uniq []string
			for _, s := range want {
				if !m[s] {
					m[s] = true
					uniq = append(uniq, s)
				}
			}
			var gs []string
			for _, g := range out {
				gs = append(gs, g.BinaryString())
			}
			sort.Strings(gs)
			sort.Strings(uniq)
			if d := vSame(gs, uniq); d != "" {
				return "merged: " + d
			}
			return ""
		})
	}
	// a whole write and read through the moving of a bin, with a stored list that was there before
	for k := 0; k < r.size(25, 300); k++ {
		old, add := vStrings(r, 1+r.rng.Intn(30)), vStrings(r, 1+r.rng.Intn(30))
		room := -1
		if r.rng.Intn(2) == 0 {
			room = r.rng.Intn(400)
		}
		r.run(map[string]interface{}{"stored": vHex(old), "new": vHex(add), "room": room}, func() string {
			dir := r.dir()
			defer os.RemoveAll(dir)
			c := newVCache(1)
			db, e := NewCertDatabase(c, dir, false)
			if e != nil {
				return e.Error()
			}
			exp := types.NewExpDateFromTime(time.Now().Add(1000 * time.Hour))
			iss := types.NewIssuerFromString("issuer")
			f := vFile(dir, exp.ID(), iss.ID())
			vWriteList(f, exp.ID(), old)
			for _, s := range add {
				c.put(vSetKey(exp.ID(), iss.ID()), vEntry(5, vLog(1), []byte(s)))
			}
			logs := []types.CTLogState{{LogID: vLogID(vLog(1)), MMD: 0, MaxTimestamp: 1 << 60, ShortURL: "l"}}
			release := func() {}
			if room >= 0 {
				release = vLimitFiles(uint64(room))
			}
			e = db.moveCachedSerialsToStorage(logs)
			release()
			got, re := vReadList(f, exp.ID())
			if re != nil {
				return "the stored list: " + re.Error()
			}
			m := map[string]bool{}
			for _, s := range old {
				m[s] = true
			}
			if e == nil {
				for _, s := range add {
					m[s] = true
				}
			}
			seen := map[string]bool{}
			for _, g := range got {
				if seen[g] {
					return "stored twice: " + hex.EncodeToString([]byte(g))
				}
				seen[g] = true
			}
			for s := range m {
				if !seen[s] {
					return "lost " + hex.EncodeToString([]byte(s)) + fmt.Sprintf(" (move reported %v)", e)
				}
			}
			return ""
		})
	}
}

func vStrings(r *vRun, n int) []string {
	m := map[string]bool{}
	var l []string
	for i := 0; i < n; i++ {
		s := string(vSerial(r.rng))
		if !m[s] {
			m[s] = true
			l = append(l, s)
		}
	}
	return l
}

func vHexShort(ss []string) []string {
	var l []string
	for i, s := range ss {
		if i == 8 {
			break
		}
		if len(s) > 20 {
			s = s[:20]
		}
		l = append(l, hex.EncodeToString([]byte(s)))
	}
	return l
}

func vSame(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d serials, not %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("serial %d is %s, not %s", i, strings.ToLower(hex.EncodeToString([]byte(got[i]))), hex.EncodeToString([]byte(want[i])))
		}
	}
	return ""
}
