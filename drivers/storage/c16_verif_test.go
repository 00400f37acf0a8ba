package storage

import (
	"fmt"
	"testing"
	"time"
)

// TestVerifC16 runs the bulk operations and the lock against a cache server, with failing commands.
func TestVerifC16(t *testing.T) {
	r := vNew(t, "c16", "bulk insertions and removals of 0 to 5000 elements under 1 to 7 keys, each with and without a failing command, and histories of lock operations by three parties, against a cache server on the loopback interface; the server's sets, expiries and lock key are the oracle")
	sizes := []int{0, 1, 2, 3, 1023, 1024, 1025, 2047, 2048, 2049, 3000}
	if r.thorough {
		for i := 0; i < 40; i++ {
			sizes = append(sizes, r.rng.Intn(5000))
		}
	}
	for _, n := range sizes {
		for _, f := range []int{0, 1, 2, 3} {
			nk := 1 + r.rng.Intn(7)
			r.run(map[string]int{"insert": n, "keys": nk, "failing": f}, func() string { return vInsertMany(n, nk, f) })
			r.run(map[string]int{"remove": n, "failing": f}, func() string { return vRemove(n, f) })
			r.run(map[string]int{"list": n, "failing": f}, func() string { return vToChan(n, f) })
		}
	}
	for i := 0; i < r.size(60, 1500); i++ {
		var h []string
		for j := 0; j < 3+r.rng.Intn(8); j++ {
			op := []string{"acquire", "has", "release", "foreign", "failhas", "failacquire"}[r.rng.Intn(6)]
			h = append(h, fmt.Sprintf("%s %d", op, r.rng.Intn(3)))
		}
		r.run(map[string]interface{}{"lock": h}, func() string { return vLockHistory(h) })
	}
	r.done()
}

func vInsertMany(n, nk, f int) string {
	s := newVRedis()
	defer s.close()
	rc := s.cache()
	s.set("serials::old", "kept")
	s.set("key0", "there")
	var items []SetMemberWithExpiry
	for i := 0; i < n; i++ {
		k := i % nk
		items = append(items, SetMemberWithExpiry{Key: fmt.Sprintf("key%d", k), Value: fmt.Sprintf("v%d", i/2), Expiry: time.Unix(int64(2000000000+k), 0)})
	}
	if f > 0 {
		if f == 3 {
			s.failAt("expireat", 1+n/2)
		} else {
			s.failAt("sadd", 1+(n/3)*(f-1))
		}
	}
	err := rc.SetInsertMany(items)
	if f == 0 && err != nil {
		return "failed although nothing failed: " + err.Error()
	}
	given := map[string]bool{"serials::old kept": true, "key0 there": true}
	for _, i := range items {
		given[i.Key+" "+i.Value] = true
		if err == nil && !s.members(i.Key)[i.Value] {
			return fmt.Sprintf("success, but %s is not in %s", i.Value, i.Key)
		}
		s.mu.Lock()
		e := s.exp[i.Key]
		s.mu.Unlock()
		if err == nil && e != i.Expiry.Unix() {
			return fmt.Sprintf("success, but %s expires at %d, not %d", i.Key, e, i.Expiry.Unix())
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, m := range s.sets {
		for e := range m {
			if !given[k+" "+e] {
				return fmt.Sprintf("%s was put into %s", e, k)
			}
			delete(given, k+" "+e)
		}
	}
	if !s.sets["serials::old"]["kept"] || !s.sets["key0"]["there"] {
		return "an element that was there is gone"
	}
	return ""
}

func vRemove(n, f int) string {
	s := newVRedis()
	defer s.close()
	rc := s.cache()
	var es []string
	for i := 0; i < n; i++ {
		es = append(es, fmt.Sprintf("v%d", i))
		s.set("key", fmt.Sprintf("v%d", i), fmt.Sprintf("other%d", i))
		s.set("key2", fmt.Sprintf("v%d", i))
	}
	s.set("key", "last")
	if f > 0 {
		s.failAt("srem", f)
	}
	err := rc.SetRemove("key", es)
	if f == 0 && err != nil {
		return "failed although nothing failed: " + err.Error()
	}
	m := s.members("key")
	for i, e := range es {
		if err == nil && m[e] {
			return fmt.Sprintf("success, but element %d of %d is still there", i, n)
		}
		if !m[fmt.Sprintf("other%d", i)] {
			return fmt.Sprintf("other%d was removed, too", i)
		}
	}
	if !m["last"] {
		return "an element that was not given was removed"
	}
	if len(s.members("key2")) != n {
		return "elements of another set were removed"
	}
	return ""
}

func vToChan(n, f int) string {
	s := newVRedis()
	defer s.close()
	rc := s.cache()
	for i := 0; i < n; i++ {
		s.set("key", fmt.Sprintf("v%d", i))
		s.set("key2", fmt.Sprintf("w%d", i))
	}
	if f > 0 {
		s.failAt("sscan", f)
	}
	c := make(chan string)
	var err error
	go func() { err = rc.SetToChan("key", c) }()
	got := map[string]bool{}
	for e := range c {
		got[e] = true
	}
	time.Sleep(2 * time.Millisecond)
	m := s.members("key")
	for e := range got {
		if !m[e] {
			return e + " is listed but not in the set"
		}
	}
	if err == nil && len(got) != len(m) {
		return fmt.Sprintf("%d of %d elements listed without an error", len(got), len(m))
	}
	return ""
}

// vLockHistory plays operations of three parties and compares with a lock that has one holder.
func vLockHistory(h []string) string {
	s := newVRedis()
	defer s.close()
	caches := []*RedisCache{s.cache(), s.cache(), s.cache()}
	toks := make([]string, 3) // the last token each party was given
	holder := ""
	given := map[string]bool{}
	for step, l := range h {
		var op string
		var p int
		fmt.Sscanf(l, "%s %d", &op, &p)
		at := fmt.Sprintf("step %d (%s): ", step, l)
		switch op {
		case "acquire", "failacquire":
			if op == "failacquire" {
				s.failAt("set", 1)
			}
			tok, err := caches[p].AcquireCommitLock()
			s.mu.Lock()
			delete(s.fail, "set")
			s.mu.Unlock()
			if tok != nil && err == nil {
				if holder != "" {
					return at + "granted while it is held"
				}
				if given[*tok] {
					return at + "the same token was given twice"
				}
				given[*tok] = true
				holder, toks[p] = *tok, *tok
			} else if holder == "" && op == "acquire" {
				return at + "refused while it is free"
			}
		case "has", "failhas":
			if op == "failhas" {
				s.failAt("get", 1)
			}
			ok, err := caches[p].HasCommitLock(toks[p])
			s.mu.Lock()
			delete(s.fail, "get")
			s.mu.Unlock()
			if err == nil && ok != (holder != "" && toks[p] == holder) {
				return at + fmt.Sprintf("owner test says %v", ok)
			}
			if err != nil && ok {
				return at + "owner although the test failed"
			}
		case "release":
			caches[p].ReleaseCommitLock(toks[p])
			if holder != "" && toks[p] == holder {
				holder = ""
			}
		case "foreign":
			for _, x := range []string{"", "x", holder + "x"} {
				caches[p].ReleaseCommitLock(x)
			}
			if len(holder) > 2 {
				caches[p].ReleaseCommitLock(holder[:len(holder)-2])
				if ok, err := caches[p].HasCommitLock(holder[:len(holder)-2]); ok && err == nil {
					return at + "a part of the token is accepted"
				}
			}
		}
		v, ok := s.get("lock::commit")
		if ok != (holder != "") || v != holder {
			return at + fmt.Sprintf("the lock is held by %q, not %q", v, holder)
		}
	}
	return ""
}
