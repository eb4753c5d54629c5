//go:debug default=go1.20
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- cases

// T collects the cases of one property and the observations of one run.
type T struct {
	Prop, Tier string
	Seed       int64
	Thorough   bool
	Work       string // scratch folder of this run
	Bin        string // folder of the programs built from the repository

	cases []*kase
	names map[string]bool

	heavy    sync.Mutex
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]bool
	obs      map[string]int64
	samples  []string
	viols    []Violation
	incon    []string
	serial   bool
	post     []func(c *C)
}

type kase struct {
	name, desc string
	fn         func(c *C)
}

// C is the context of a running case.
type C struct {
	t    *T
	k    *kase
	R    *rand.Rand
	lend []func()
}

// Violation is one refutation of the property.
type Violation struct {
	Case    string `json:"case"`
	Desc    string `json:"desc"`
	Message string `json:"message"`
}

type caseAbort struct{}

// Add registers a case. Its name identifies it for replays.
func (t *T) Add(name, desc string, fn func(c *C)) {
	if t.names[name] {
		panic("duplicate case " + name)
	}
	t.names[name] = true
	t.cases = append(t.cases, &kase{name, desc, fn})
}

// Addf registers a case whose description is its name.
func (t *T) Addf(fn func(c *C), format string, a ...interface{}) {
	n := fmt.Sprintf(format, a...)
	for k, base := 2, n; t.names[n]; k++ {
		n = fmt.Sprintf("%s (%d)", base, k)
	}
	t.Add(n, n, fn)
}

// N chooses a size by tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

// Rng returns a generator that depends on the seed and a label only.
func (t *T) Rng(label string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s", t.Seed, t.Prop, label)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]))))
}

// Eval counts one evaluation of the oracle; key identifies distinct ones, an
// empty key is a trivial evaluation.
func (c *C) Eval(key string) {
	c.t.mu.Lock()
	c.t.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(c.k.name))
		h.Write([]byte{0})
		h.Write([]byte(key))
		c.t.distinct[h.Sum64()] = true
	}
	c.t.mu.Unlock()
}

// Evalf is Eval with a formatted key.
func (c *C) Evalf(format string, a ...interface{}) { c.Eval(fmt.Sprintf(format, a...)) }

// Obs adds to a counter of what the monitors observed.
func (c *C) Obs(name string, n int) {
	c.t.mu.Lock()
	c.t.obs[name] += int64(n)
	c.t.mu.Unlock()
}

// Sample records an actual case, written out.
func (c *C) Sample(format string, a ...interface{}) {
	c.t.mu.Lock()
	if len(c.t.samples) < 24 {
		c.t.samples = append(c.t.samples, fmt.Sprintf(format, a...))
	}
	c.t.mu.Unlock()
}

// Exclusive keeps the cases that need much memory from running at once; call
// what it returns when done.
func (c *C) Exclusive() func() {
	c.t.heavy.Lock()
	return c.t.heavy.Unlock
}

// Failf records a violation and ends the case.
func (c *C) Failf(format string, a ...interface{}) {
	c.t.violate(c.k, fmt.Sprintf(format, a...))
	panic(caseAbort{})
}

// Inconclusive ends the case without a verdict: the run is not a success.
func (c *C) Inconclusive(format string, a ...interface{}) {
	c.t.mu.Lock()
	c.t.incon = append(c.t.incon, c.k.name+": "+fmt.Sprintf(format, a...))
	c.t.mu.Unlock()
	panic(caseAbort{})
}

// Defer runs f at the end of the case.
func (c *C) Defer(f func()) {
	c.t.mu.Lock()
	c.lend = append(c.lend, f)
	c.t.mu.Unlock()
}

// child is a context for a goroutine of the case, with its own randomness.
func (c *C) child() *C {
	x := &C{t: c.t, k: c.k, R: newRand(c.R.Int63())}
	c.Defer(func() {
		for i := len(x.lend) - 1; i >= 0; i-- {
			x.lend[i]()
		}
	})
	return x
}

// Check fails the case if ok is false.
func (c *C) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		c.Failf(format, a...)
	}
}

// Must fails the case if err is not nil.
func (c *C) Must(err error, what string) {
	if err != nil {
		c.Failf("%s: unexpected error: %v", what, err)
	}
}

// Panics runs f and reports whether it panicked and how.
func Panics(f func()) (p interface{}) {
	defer func() {
		p = recover()
		if p == nil {
			return
		}
		if _, ok := p.(caseAbort); ok {
			panic(p)
		}
	}()
	f()
	return nil
}

// Bytes returns n random bytes.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	c.R.Read(b)
	return b
}

func (t *T) violate(k *kase, msg string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	t.viols = append(t.viols, Violation{k.name, k.desc, msg})
}

// ---------------------------------------------------------------- worker

type journalEntry struct {
	Case  string    `json:"case"`
	Since time.Time `json:"since"`
}

type workerResult struct {
	Evals    int64            `json:"evals"`
	Distinct int              `json:"distinct"`
	Cases    int              `json:"cases"`
	Obs      map[string]int64 `json:"obs"`
	Samples  []string         `json:"samples"`
	Viols    []Violation      `json:"viols"`
	Incon    []string         `json:"incon"`
	Done     bool             `json:"done"`
}

func (t *T) runCase(k *kase) {
	c := &C{t: t, k: k, R: t.Rng(k.name)}
	defer func() {
		for i := len(c.lend) - 1; i >= 0; i-- {
			c.lend[i]()
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(caseAbort); ok {
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 2500 {
				st = st[:2500]
			}
			t.violate(k, fmt.Sprintf("panic: %v\n%s", p, st))
		}
	}()
	k.fn(c)
}

func (t *T) run(only map[string]bool, jobs int, outdir string) {
	cases := t.cases
	if only != nil {
		cases = nil
		for _, k := range t.cases {
			if only[k.name] {
				cases = append(cases, k)
			}
		}
	}
	if t.serial || jobs < 1 {
		jobs = 1
	}

	begin := time.Now()
	// the journal names the cases in flight
	var jmu sync.Mutex
	inflight := map[string]time.Time{}
	jf := filepath.Join(outdir, "journal.json")
	writeJournal := func() {
		l := make([]journalEntry, 0, len(inflight))
		for n, s := range inflight {
			l = append(l, journalEntry{n, s})
		}
		b, _ := json.Marshal(l)
		os.WriteFile(jf+".tmp", b, 0o644)
		os.Rename(jf+".tmp", jf)
	}

	var next int64 = -1
	var nrun int64
	var wg sync.WaitGroup
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(cases) {
					return
				}
				t.mu.Lock()
				stop := len(t.viols) >= 5
				t.mu.Unlock()
				if stop {
					return
				}
				k := cases[i]
				jmu.Lock()
				inflight[k.name] = time.Now()
				writeJournal()
				jmu.Unlock()
				t0 := time.Now()
				t.runCase(k)
				if d := time.Since(t0); d > 3*time.Second && os.Getenv("VH_SLOW") != "" {
					fmt.Fprintf(os.Stderr, "SLOW %v %s\n", d, k.name)
				}
				atomic.AddInt64(&nrun, 1)
				jmu.Lock()
				delete(inflight, k.name)
				writeJournal()
				jmu.Unlock()
			}
		}()
	}
	wg.Wait()

	// cases without a verdict, as on a busy machine, get another chance, alone
	for round := 0; round < 2 && len(t.viols) == 0; round++ {
		again := t.incon
		if len(again) > 6 || time.Since(begin) > 7*time.Minute {
			break
		}
		t.incon = nil
		for _, k := range cases {
			for _, l := range again {
				if strings.HasPrefix(l, k.name+": ") {
					jmu.Lock()
					inflight[k.name] = time.Now()
					writeJournal()
					jmu.Unlock()
					t.runCase(k)
					t.obs["cases_repeated"]++
					jmu.Lock()
					delete(inflight, k.name)
					writeJournal()
					jmu.Unlock()
					break
				}
			}
		}
	}

	if len(t.viols) == 0 && only == nil {
		for i, p := range t.post {
			t.runCase(&kase{fmt.Sprintf("post-%d", i), "aggregate over the whole run", p})
		}
	}

	samples := t.samples
	if len(samples) == 0 {
		step := len(cases)/5 + 1
		for i := 0; i < len(cases); i += step {
			samples = append(samples, cases[i].desc)
		}
	}
	res := workerResult{t.evals, len(t.distinct), int(nrun), t.obs, samples, t.viols, t.incon, true}
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(outdir, "result.json"), b, 0o644)
}

// ---------------------------------------------------------------- readers

// detReader is a deterministic reader that delivers as much as asked.
type detReader struct{ r *rand.Rand }

func (d detReader) Read(p []byte) (int, error) { d.r.Read(p); return len(p), nil }

// recReader records everything that was delivered.
type recReader struct {
	src io.Reader
	mu  sync.Mutex
	buf []byte
}

func (r *recReader) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	r.mu.Lock()
	r.buf = append(r.buf, p[:n]...)
	r.mu.Unlock()
	return n, err
}

// shortReader delivers a few bytes at a time.
type shortReader struct {
	src io.Reader
	r   *rand.Rand
	max int
}

func (s *shortReader) Read(p []byte) (int, error) {
	n := 1 + s.r.Intn(s.max)
	if n > len(p) {
		n = len(p)
	}
	return s.src.Read(p[:n])
}

// failReader fails after a number of bytes.
type failReader struct {
	src    io.Reader
	left   int
	failed bool
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.left <= 0 {
		f.failed = true
		return 0, io.ErrUnexpectedEOF
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.src.Read(p)
	f.left -= n
	return n, err
}

// ---------------------------------------------------------------- known findings

type finding struct {
	prop string
	re   *regexp.Regexp
	what string
}

// loadFindings reads lines "finding: property=<id> match=<regexp> :: <what>".
func loadFindings(path string) ([]finding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		m := regexp.MustCompile(`^finding: property=(\S+) match=(\S+) :: (.*)$`).FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("bad line in %s: %s", path, l)
		}
		re, err := regexp.Compile(m[2])
		if err != nil {
			return nil, err
		}
		out = append(out, finding{m[1], re, m[3]})
	}
	return out, nil
}

func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func numJobs() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}
