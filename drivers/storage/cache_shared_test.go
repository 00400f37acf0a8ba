package storage

// an in-memory cache with fault injection, and helpers, for the replay drivers

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	types "github.com/mozilla/crlite/go"
)

type vCache struct {
	mu     sync.Mutex
	sets   map[string]map[string]bool
	exp    map[string]time.Time
	states []types.CTLogState
	lock   string
	epoch  uint64
	dup    int            // extra copies in scans
	extra  []string       // extra keys reported by scans
	fail   map[string]int // operation -> failing call number (1-based)
	count  map[string]int
	hook   func(op string) // called at every operation, before it takes effect
	trace  []string
	rng    *rand.Rand
}

var errV = errors.New("injected failure")

func newVCache(seed int64) *vCache {
	return &vCache{sets: map[string]map[string]bool{}, exp: map[string]time.Time{}, fail: map[string]int{}, count: map[string]int{}, rng: rand.New(rand.NewSource(seed))}
}

func (c *vCache) op(name string) error {
	c.mu.Lock()
	c.count[name]++
	c.trace = append(c.trace, name)
	f := c.fail[name] == c.count[name]
	h := c.hook
	c.mu.Unlock()
	if h != nil {
		h(name)
	}
	if f {
		return errV
	}
	return nil
}

func (c *vCache) put(key, e string) {
	if c.sets[key] == nil {
		c.sets[key] = map[string]bool{}
	}
	c.sets[key][e] = true
}

func (c *vCache) has(key, e string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.sets[key][e]
}

func (c *vCache) snapshot() map[string][]string {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := map[string][]string{}
	for k, s := range c.sets {
		for e := range s {
			m[k] = append(m[k], e)
		}
		sort.Strings(m[k])
	}
	return m
}

func (c *vCache) Exists(key string) (bool, error) {
	if err := c.op("Exists"); err != nil {
		return false, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.sets[key]) > 0, nil
}
func (c *vCache) SetInsert(key, e string) (bool, error) {
	if err := c.op("SetInsert"); err != nil {
		return false, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	n := !c.sets[key][e]
	c.put(key, e)
	return n, nil
}
func (c *vCache) SetInsertMany(items []SetMemberWithExpiry) error {
	if err := c.op("SetInsertMany"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, i := range items {
		c.put(i.Key, i.Value)
		c.exp[i.Key] = i.Expiry
	}
	return nil
}
func (c *vCache) SetRemove(key string, es []string) error {
	if err := c.op("SetRemove"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, e := range es {
		delete(c.sets[key], e)
	}
	if len(c.sets[key]) == 0 {
		delete(c.sets, key)
	}
	return nil
}
func (c *vCache) SetContains(key, e string) (bool, error) {
	if err := c.op("SetContains"); err != nil {
		return false, err
	}
	return c.has(key, e), nil
}
func (c *vCache) list(key string) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []string
	for e := range c.sets[key] {
		for i := 0; i <= c.dup; i++ {
			r = append(r, e)
		}
	}
	sort.Strings(r)
	c.rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}
func (c *vCache) SetList(key string) ([]string, error) {
	if err := c.op("SetList"); err != nil {
		return nil, err
	}
	return c.list(key), nil
}
func (c *vCache) SetToChan(key string, ch chan<- string) error {
	defer close(ch)
	err := c.op("SetToChan")
	l := c.list(key)
	if err != nil {
		l = l[:len(l)/2]
	}
	for _, e := range l {
		ch <- e
	}
	return err
}
func (c *vCache) SetCardinality(key string) (int, error) {
	if err := c.op("SetCardinality"); err != nil {
		return 0, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.sets[key]), nil
}
func (c *vCache) ExpireAt(key string, t time.Time) error {
	if err := c.op("ExpireAt"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.exp[key] = t
	return nil
}
func (c *vCache) keys(pattern string) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []string
	p := strings.TrimSuffix(pattern, "*")
	for k := range c.sets {
		if strings.HasPrefix(k, p) {
			for i := 0; i <= c.dup; i++ {
				r = append(r, k)
			}
		}
	}
	r = append(r, c.extra...)
	sort.Strings(r)
	c.rng.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}
func (c *vCache) KeysToChan(pattern string, ch chan<- string) error {
	defer close(ch)
	err := c.op("KeysToChan")
	l := c.keys(pattern)
	if err != nil {
		l = l[:len(l)/2]
	}
	for _, k := range l {
		ch <- k
	}
	return err
}
func (c *vCache) StoreLogState(s *types.CTLogState) error {
	if err := c.op("StoreLogState"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := range c.states {
		if c.states[i].ShortURL == s.ShortURL {
			c.states[i] = *s
			return nil
		}
	}
	c.states = append(c.states, *s)
	return nil
}
func (c *vCache) LoadLogState(u string) (*types.CTLogState, error) {
	if err := c.op("LoadLogState"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := range c.states {
		if c.states[i].ShortURL == u {
			s := c.states[i]
			return &s, nil
		}
	}
	return nil, errors.New("no such log")
}
func (c *vCache) LoadAllLogStates() ([]types.CTLogState, error) {
	if err := c.op("LoadAllLogStates"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]types.CTLogState{}, c.states...), nil
}
func (c *vCache) Migrate(*types.CTLogMetadata) error { return c.op("Migrate") }
func (c *vCache) AcquireCommitLock() (*string, error) {
	if err := c.op("AcquireCommitLock"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.lock != "" {
		return nil, nil
	}
	c.lock = "token"
	s := c.lock
	return &s, nil
}
func (c *vCache) ReleaseCommitLock(t string) {
	c.op("ReleaseCommitLock")
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.lock == t {
		c.lock = ""
	}
}
func (c *vCache) HasCommitLock(t string) (bool, error) {
	if err := c.op("HasCommitLock"); err != nil {
		return false, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.lock != "" && c.lock == t, nil
}
func (c *vCache) GetEpoch() (uint64, error) {
	if err := c.op("GetEpoch"); err != nil {
		return 0, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.epoch, nil
}
func (c *vCache) NextEpoch() error {
	if err := c.op("NextEpoch"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.epoch++
	return nil
}
func (c *vCache) Restore(e uint64, s []types.CTLogState) error {
	if err := c.op("Restore"); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.states = append([]types.CTLogState{}, s...)
	c.epoch = e
	return nil
}

// vEntry builds the cache entry of a serial, independently of the code under test.
func vEntry(ts uint64, log [32]byte, serial []byte) string {
	b := make([]byte, 8, 40+len(serial))
	binary.LittleEndian.PutUint64(b, ts)
	b = append(b, log[:]...)
	return string(append(b, serial...))
}

func vLog(i int) [32]byte {
	var l [32]byte
	for k := range l {
		l[k] = byte(i*37 + k)
	}
	return l
}

func vLogID(l [32]byte) string { return base64.StdEncoding.EncodeToString(l[:]) }

func vSetKey(label, issuer string) string { return "serials::" + label + "::" + issuer }
func vFile(dir, label, issuer string) string {
	return filepath.Join(dir, "serials", "issuer::"+issuer, "serials::"+label+"::"+issuer)
}
func vUnix(label string) int64 {
	t, err := time.Parse("2006-01-02-15", label)
	if err != nil {
		t, err = time.Parse("2006-01-02", label)
	}
	if err != nil {
		panic(err)
	}
	return t.Unix()
}

// vReadList parses a stored list on its own terms.
func vReadList(path, label string) ([]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	ls := strings.Split(string(b), "\n")
	if len(ls) < 2 || ls[len(ls)-1] != "" {
		return nil, fmt.Errorf("not a list of lines: %q", b)
	}
	if ls[0] != fmt.Sprintf("@%016x", vUnix(label)) {
		return nil, fmt.Errorf("first line %q", ls[0])
	}
	var r []string
	for _, l := range ls[1 : len(ls)-1] {
		s, err := hex.DecodeString(l)
		if err != nil {
			return nil, fmt.Errorf("line %q: %v", l, err)
		}
		r = append(r, string(s))
	}
	return r, nil
}

func vWriteList(path, label string, serials []string) {
	os.MkdirAll(filepath.Dir(path), 0755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "@%016x\n", vUnix(label))
	for _, s := range serials {
		sb.WriteString(hex.EncodeToString([]byte(s)) + "\n")
	}
	if err := os.WriteFile(path, []byte(sb.String()), 0644); err != nil {
		panic(err)
	}
}

// vTree maps every file below dir to its content.
func vTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// vLimitFiles makes writes beyond n bytes of any file fail until the returned function is called.
func vLimitFiles(n uint64) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max})
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func vSerial(r *rand.Rand) []byte {
	n := 1 + r.Intn(20)
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(6) == 0 {
		b[0] = 0
	}
	if r.Intn(8) == 0 {
		b = []byte{0xff, 0xff}
	}
	return b
}

func vHex(ss []string) []string {
	var r []string
	for _, s := range ss {
		r = append(r, hex.EncodeToString([]byte(s)))
	}
	sort.Strings(r)
	return r
}
