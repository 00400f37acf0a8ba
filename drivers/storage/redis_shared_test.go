package storage

// a small cache server on the loopback interface, with injected failures, for the replay drivers

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type vRedis struct {
	mu    sync.Mutex
	ln    net.Listener
	sets  map[string]map[string]bool
	strs  map[string]string
	exp   map[string]int64
	log   [][]string // commands, as received
	fail  map[string]int
	count map[string]int
	lost  bool // a failing command is carried out all the same
	hook  func(cmd []string)
}

func newVRedis() *vRedis {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &vRedis{ln: ln, sets: map[string]map[string]bool{}, strs: map[string]string{}, exp: map[string]int64{}, fail: map[string]int{}, count: map[string]int{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *vRedis) close() { s.ln.Close() }

func (s *vRedis) cache() *RedisCache {
	rc, err := NewRedisCache(s.ln.Addr().String(), 5*time.Second)
	if err != nil {
		panic(err)
	}
	return rc
}

func (s *vRedis) failAt(cmd string, n int) {
	s.mu.Lock()
	s.fail[cmd] = s.count[cmd] + n
	s.mu.Unlock()
}

func (s *vRedis) get(key string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.strs[key]
	return v, ok
}

func (s *vRedis) members(key string) map[string]bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]bool{}
	for e := range s.sets[key] {
		m[e] = true
	}
	return m
}

func (s *vRedis) set(key string, es ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.sets[key] == nil {
		s.sets[key] = map[string]bool{}
	}
	for _, e := range es {
		s.sets[key][e] = true
	}
}

func (s *vRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	w := bufio.NewWriter(c)
	for {
		l, err := r.ReadString('\n')
		if err != nil || len(l) < 3 || l[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
		var cmd []string
		for i := 0; i < n; i++ {
			l, err := r.ReadString('\n')
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			cmd = append(cmd, string(b[:k]))
		}
		w.WriteString(s.do(cmd))
		if r.Buffered() == 0 {
			w.Flush()
		}
	}
}

func bulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }
func arr(vs []string) string {
	o := fmt.Sprintf("*%d\r\n", len(vs))
	for _, v := range vs {
		o += bulk(v)
	}
	return o
}

func (s *vRedis) do(cmd []string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	name := strings.ToLower(cmd[0])
	a := cmd[1:]
	s.count[name]++
	s.log = append(s.log, cmd)
	if s.hook != nil {
		s.hook(cmd)
	}
	if s.fail[name] == s.count[name] {
		if s.lost {
			s.exec(name, a)
		}
		return "-ERR injected failure\r\n"
	}
	return s.exec(name, a)
}

func (s *vRedis) exec(name string, a []string) string {
	match := func(p, k string) bool {
		if strings.HasSuffix(p, "*") {
			return strings.HasPrefix(k, p[:len(p)-1])
		}
		return p == k
	}
	keys := func(p string) []string {
		r := []string{}
		for k := range s.strs {
			if match(p, k) {
				r = append(r, k)
			}
		}
		for k := range s.sets {
			if match(p, k) {
				r = append(r, k)
			}
		}
		sort.Strings(r)
		return r
	}
	num := func(n int) string { return fmt.Sprintf(":%d\r\n", n) }
	switch name {
	case "ping":
		return "+PONG\r\n"
	case "info":
		return bulk("maxmemory_policy:noeviction")
	case "get":
		v, ok := s.strs[a[0]]
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "set":
		nx := false
		for _, o := range a[2:] {
			nx = nx || strings.EqualFold(o, "nx")
		}
		if _, ok := s.strs[a[0]]; ok && nx {
			return "$-1\r\n"
		}
		s.strs[a[0]] = a[1]
		return "+OK\r\n"
	case "setnx":
		if _, ok := s.strs[a[0]]; ok {
			return num(0)
		}
		s.strs[a[0]] = a[1]
		return num(1)
	case "incr":
		n, err := strconv.ParseInt(s.strs[a[0]], 10, 64)
		if _, ok := s.strs[a[0]]; ok && err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		s.strs[a[0]] = strconv.FormatInt(n+1, 10)
		return num(int(n + 1))
	case "del":
		n := 0
		for _, k := range a {
			if _, ok := s.strs[k]; ok {
				n++
			}
			delete(s.strs, k)
			delete(s.sets, k)
		}
		return num(n)
	case "sadd":
		n := 0
		if s.sets[a[0]] == nil {
			s.sets[a[0]] = map[string]bool{}
		}
		for _, e := range a[1:] {
			if !s.sets[a[0]][e] {
				n++
			}
			s.sets[a[0]][e] = true
		}
		return num(n)
	case "srem":
		n := 0
		for _, e := range a[1:] {
			if s.sets[a[0]][e] {
				n++
			}
			delete(s.sets[a[0]], e)
		}
		return num(n)
	case "smembers":
		r := []string{}
		for e := range s.sets[a[0]] {
			r = append(r, e)
		}
		sort.Strings(r)
		return arr(r)
	case "sismember":
		if s.sets[a[0]][a[1]] {
			return num(1)
		}
		return num(0)
	case "scard":
		return num(len(s.sets[a[0]]))
	case "exists":
		n := 0
		for _, k := range a {
			if _, ok := s.strs[k]; ok || s.sets[k] != nil {
				n++
			}
		}
		return num(n)
	case "expireat":
		t, _ := strconv.ParseInt(a[1], 10, 64)
		if s.sets[a[0]] == nil {
			return num(0)
		}
		s.exp[a[0]] = t
		return num(1)
	case "keys":
		return arr(keys(a[0]))
	case "scan", "sscan":
		var all []string
		cur := a[0]
		if name == "scan" {
			p := "*"
			for i, o := range a {
				if strings.EqualFold(o, "match") {
					p = a[i+1]
				}
			}
			all = keys(p)
		} else {
			cur = a[1]
			for e := range s.sets[a[0]] {
				all = append(all, e)
			}
			sort.Strings(all)
		}
		// pages of three that overlap by one, as scans may report an element more than once
		n, _ := strconv.Atoi(cur)
		end := n + 3
		next := strconv.Itoa(end)
		if end >= len(all) {
			end, next = len(all), "0"
		}
		from := n
		if from > 0 {
			from--
		}
		if from > end {
			from = end
		}
		return "*2\r\n" + bulk(next) + arr(all[from:end])
	}
	return "-ERR unknown command\r\n"
}
