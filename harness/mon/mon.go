// Package mon is the monitoring framework shared by all checks: seeded randomness, counters for
// what was actually observed, violation records, known findings, watchdogs and the supervising
// parent process that turns a worker's outcome (including a crash of the code under test) into a
// verdict and an evidence file.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed breach of the property.
type Violation struct {
	Key    string `json:"key"`    // stable class: which clause, on which input/call site/history
	Detail string `json:"detail"` // what was observed
	Replay any    `json:"replay,omitempty"`
}

// Report is what a worker hands to its parent.
type Report struct {
	Done       bool             `json:"done"`
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
	Active     []string         `json:"active"`
	Inconcl    []string         `json:"inconclusive"`
}

type Check struct {
	ID     string
	Race   bool // build and run under the race detector
	Level  string
	Rule   string
	Assume []string
	Run    func(c *Ctx)
}

type Ctx struct {
	Prop string
	Tier string
	Seed int64
	Only string // when set, run only cases whose label contains it

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	viol     []Violation
	violKeys map[string]int
	nviol    int
	inconcl  []string
	active   map[string]int
	since    map[string]time.Time
	out      string
	stopFl   chan struct{}
	flWG     sync.WaitGroup
	tooMany  atomic.Bool
}

func NewCtx(prop, tier string, seed int64, out string) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, out: out,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, violKeys: map[string]int{},
		active: map[string]int{}, since: map[string]time.Time{}, stopFl: make(chan struct{})}
	c.flWG.Add(1)
	go func() {
		defer c.flWG.Done()
		t := time.NewTicker(250 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				c.flush(false)
			case <-c.stopFl:
				return
			}
		}
	}()
	go c.watchLocks()
	return c
}

// watchLocks ends a run in which a goroutine of the code under test has waited for a lock during
// two samples 45 s apart while some case made no progress for over 90 s: a deadlock that a case's
// own watchdogs did not cover.
func (c *Ctx) watchLocks() {
	var before map[string]string
	for {
		select {
		case <-time.After(45 * time.Second):
		case <-c.stopFl:
			return
		}
		old := ""
		c.mu.Lock()
		for l, t := range c.since {
			if time.Since(t) > 90*time.Second && (old == "" || l < old) {
				old = l
			}
		}
		c.mu.Unlock()
		if old == "" {
			before = nil
			continue
		}
		now := lockWaits(Stacks())
		for id, where := range now {
			if before[id] == where {
				c.Violate("deadlock:"+where, nil, "case %s has made no progress for over 90 s; a goroutine waits for a lock in %s for over 45 s\n%s", old, where, LibStacks())
				c.flush(true)
				os.Exit(0)
			}
		}
		before = now
	}
}

var lockHead = regexp.MustCompile(`^goroutine (\d+) .*\[(?:sync\.\S*Mutex\.\S+|semacquire)[\],]`)

// lockWaits maps the goroutines that wait for a lock to the function of the code under test that
// asked for it.
func lockWaits(stacks string) map[string]string {
	out := map[string]string{}
	for _, g := range strings.Split(stacks, "\n\n") {
		m := lockHead.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") || strings.HasPrefix(l, "runtime.") {
				continue
			}
			if strings.Contains(l, lib) {
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
				out[m[1]] = l[strings.LastIndex(l, "/")+1:]
			}
			break
		}
	}
	return out
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng returns a generator determined by seed and label alone.
func (c *Ctx) Rng(label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%s", c.Prop, c.Seed, label)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Case counts one evaluated case. key identifies its content; nontrivial says whether the rule
// counts it.
func (c *Ctx) Case(key string, nontrivial bool) {
	h := Hash(key)
	c.mu.Lock()
	c.evals++
	if nontrivial {
		c.distinct[h] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Counter(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	if int64(n) > c.counters[name] {
		c.counters[name] = int64(n)
	}
	c.mu.Unlock()
}

// Sample keeps up to 6 written-out cases.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Begin marks a case active (named in a crash report); the returned func ends it.
func (c *Ctx) Begin(label string) func() {
	c.mu.Lock()
	c.active[label]++
	if _, ok := c.since[label]; !ok {
		c.since[label] = time.Now()
	}
	c.mu.Unlock()
	return func() {
		c.mu.Lock()
		if c.active[label]--; c.active[label] <= 0 {
			delete(c.active, label)
			delete(c.since, label)
		}
		c.mu.Unlock()
	}
}

// Skip reports whether the case is filtered out by -only.
func (c *Ctx) Skip(label string) bool {
	return c.Only != "" && !strings.Contains(label, c.Only)
}

// Violate records a breach. At most 3 per key and 60 in all are kept.
func (c *Ctx) Violate(key string, replay any, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "...(cut)"
	}
	c.mu.Lock()
	c.violKeys[key]++
	if c.violKeys[key] <= 3 && len(c.viol) < 60 {
		c.viol = append(c.viol, Violation{Key: key, Detail: d, Replay: replay})
	}
	if c.nviol++; c.nviol >= 30 {
		c.tooMany.Store(true)
	}
	c.mu.Unlock()
	if c.violN() == 1 {
		c.flush(false)
		// the verdict stands: what else a broken tree shows is not worth the rest of the time limit
		time.AfterFunc(150*time.Second, func() { c.flush(true); os.Exit(0) })
	}
}

func (c *Ctx) violN() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

// Broken reports whether so much was already found that going on gains nothing.
func (c *Ctx) Broken() bool { return c.tooMany.Load() }

// Violations returns the number of recorded violations so far.
func (c *Ctx) Violations() int { return c.violN() }

// Inconclusive records a case on which nothing could be decided (never a violation).
func (c *Ctx) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	c.counters["inconclusive"]++
	if len(c.inconcl) < 20 {
		c.inconcl = append(c.inconcl, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

func (c *Ctx) flush(done bool) {
	c.mu.Lock()
	r := Report{Done: done, Evals: c.evals, Distinct: int64(len(c.distinct)), Counters: map[string]int64{},
		Samples: c.samples, Violations: append([]Violation(nil), c.viol...), Inconcl: c.inconcl}
	for k, v := range c.counters {
		r.Counters[k] = v
	}
	for k := range c.active {
		r.Active = append(r.Active, k)
	}
	sort.Strings(r.Active)
	b, err := json.Marshal(r)
	c.mu.Unlock()
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: marshal report:", err)
		return
	}
	tmp := c.out + ".tmp"
	if os.WriteFile(tmp, b, 0o644) == nil {
		os.Rename(tmp, c.out)
	}
}

func (c *Ctx) Finish() {
	close(c.stopFl)
	c.flWG.Wait()
	c.flush(true)
}

// Recover runs fn on this goroutine and returns the panic it raised, if any, with its stack.
func Recover(fn func()) (pv any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			pv = r
			buf := make([]byte, 16<<10)
			stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	fn()
	return nil, ""
}

// Hang is the generous bound after which an operation that needs microseconds to milliseconds
// is declared stuck. It is a watchdog, not a performance bound.
const Hang = 40 * time.Second

// Within runs fn on a new goroutine; false means it had not returned after d.
func Within(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// Eventually polls cond until it holds; false means it did not within d.
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	sl := time.Millisecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(sl)
		if sl < 20*time.Millisecond {
			sl += time.Millisecond
		}
	}
}

// Stacks returns all goroutine stacks (trimmed).
func Stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	return string(buf[:n])
}

// LibStacks returns only the goroutines having a frame in the code under test.
func LibStacks() string {
	var out []string
	for _, g := range strings.Split(Stacks(), "\n\n") {
		if strings.Contains(g, "younglifestyle/secs4go") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 60000 {
		s = s[:60000]
	}
	return s
}

// Parallel runs n jobs on w workers.
func Parallel(w, n int, fn func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				fn(i)
			}
		}()
	}
	wg.Wait()
}
