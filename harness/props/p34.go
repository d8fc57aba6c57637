package props

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/younglifestyle/secs4go/common"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P34", Run: p34,
		Rule:   "seeded histories of add, remove, fire and Len on one event, executed in lockstep with a list model (nested operations inside callbacks included), plus concurrent histories; non-trivial when at least one callback was removed and one fire reached two or more callbacks; distinct by operation history",
		Assume: []string{"a callback is identified by the function value given to AddCallback (the caller keeps it to remove it)"}})
}

type evCB = func(map[string]interface{})

func p34(c *mon.Ctx) {
	p34Lockstep(c)
	p34Concurrent(c)
	p34Block(c)
}

// script is what a callback does when it runs.
type p34cb struct {
	id     int
	fn     evCB
	action func() // nested operation, armed for one run
}

func p34Lockstep(c *mon.Ctx) {
	n := c.N(3000, 150000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("lock-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		ev := &common.Event{}
		var model []int // registered callback ids, in order
		var calls []string
		var expect []string
		var hist []string
		fireNo := 0
		pool := make([]*p34cb, 2+r.Intn(6))
		for k := range pool {
			p := &p34cb{id: k}
			p.fn = func(d map[string]interface{}) {
				calls = append(calls, fmt.Sprintf("%v:%d", d["f"], p.id))
				if a := p.action; a != nil {
					p.action = nil
					a()
				}
			}
			pool[k] = p
		}
		removed, wide := false, false
		var fire func()
		add := func(k int) {
			hist = append(hist, fmt.Sprintf("add%d", k))
			ev.AddCallback(pool[k].fn)
			model = append(model, k)
		}
		remove := func(k int) {
			hist = append(hist, fmt.Sprintf("rm%d", k))
			ev.RemoveCallback(pool[k].fn)
			for j, v := range model {
				if v == k {
					model = append(append([]int(nil), model[:j]...), model[j+1:]...)
					removed = true
					break
				}
			}
		}
		var nestedDone []string // expected order must follow nesting: computed by running the model the same way
		_ = nestedDone
		depth := 0
		fire = func() {
			f := fireNo
			fireNo++
			hist = append(hist, fmt.Sprintf("fire%d(", f))
			if len(model) > 1 {
				wide = true
			}
			// The model's own run of this fire: expected calls, with nested expectations recorded by
			// the nested fires themselves, is checked after the outermost fire returns.
			snap := append([]int(nil), model...)
			start := len(calls)
			ev.Fire(map[string]interface{}{"f": f})
			// own calls of this fire, in order
			var own []string
			for _, s := range calls[start:] {
				var ff, id int
				fmt.Sscanf(s, "%d:%d", &ff, &id)
				if ff == f {
					own = append(own, fmt.Sprint(id))
				}
			}
			var w []string
			for _, k := range snap {
				w = append(w, fmt.Sprint(k))
			}
			hist = append(hist, ")")
			if fmt.Sprint(own) != fmt.Sprint(w) {
				c.Violate("fire-wrong-callbacks", map[string]any{"history": append([]string(nil), hist...)},
					"%s: fire %d called callbacks %v, registered at that moment: %v", label, f, own, w)
			}
			_ = expect
		}
		ops := 4 + r.Intn(30)
		pv, st := mon.Recover(func() {
			for o := 0; o < ops; o++ {
				switch x := r.Intn(10); {
				case x < 4:
					add(r.Intn(len(pool)))
				case x < 6:
					remove(r.Intn(len(pool)))
				case x < 7:
					if got := ev.Len(); got != len(model) {
						c.Violate("len", map[string]any{"history": hist}, "%s: Len()=%d, model has %d", label, got, len(model))
					}
				default:
					// arm nested actions on some callbacks
					for _, p := range pool {
						p.action = nil
						if r.Intn(4) == 0 {
							p.action = p34Nested(r, pool, &depth, add, remove, func() { fire() })
						}
					}
					fire()
				}
			}
			for _, p := range pool {
				p.action = nil
			}
			fire()
		})
		if pv != nil {
			c.Violate("event-panics", map[string]any{"history": hist}, "%s: %v\n%s", label, pv, st)
		}
		c.Case(fmt.Sprint(hist), removed && wide)
		c.Count("fires", fireNo)
		c.Count("callback_runs", len(calls))
		if i < 2 {
			c.Sample(map[string]any{"history": hist, "calls": calls})
		}
	})
}

func p34Nested(r *rand.Rand, pool []*p34cb, depth *int, add, remove func(int), fire func()) func() {
	k := r.Intn(len(pool))
	switch r.Intn(4) {
	case 0:
		return func() { add(k) }
	case 1, 2:
		return func() { remove(k) }
	default:
		return func() {
			if *depth < 3 {
				*depth++
				fire()
				*depth--
			}
		}
	}
}

// Concurrent histories: stable callbacks must be called exactly once by every fire, adds are not
// lost, removed ones are not called by fires that start later.
func p34Concurrent(c *mon.Ctx) {
	n := c.N(150, 5000)
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("conc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		ev := &common.Event{}
		nStable, nFire, nAdd := 1+r.Intn(4), 2+r.Intn(4), 2+r.Intn(5)
		fires, per := 20, 15
		counts := make([][]atomic.Int32, nStable) // [cb][fire]
		var stable []evCB
		for k := 0; k < nStable; k++ {
			k := k
			counts[k] = make([]atomic.Int32, nFire*fires)
			fn := func(d map[string]interface{}) {
				if f, ok := d["f"].(int); ok {
					counts[k][f].Add(1)
				}
			}
			stable = append(stable, fn)
			ev.AddCallback(fn)
		}
		var late atomic.Int32
		var keepMu sync.Mutex
		keepRuns := map[string]*atomic.Int32{}
		var wg sync.WaitGroup
		for f := 0; f < nFire; f++ {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < fires; k++ {
					ev.Fire(map[string]interface{}{"f": f*fires + k})
				}
			}()
		}
		for a := 0; a < nAdd; a++ {
			a := a
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					gone := &atomic.Bool{}
					runs := &atomic.Int32{}
					fn := func(d map[string]interface{}) {
						if d["probe"] != nil {
							if gone.Load() {
								late.Add(1)
							}
							runs.Add(1)
						}
					}
					ev.AddCallback(fn)
					if (a+k)%2 == 0 {
						ev.RemoveCallback(fn)
						gone.Store(true)
					} else {
						keepMu.Lock()
						keepRuns[fmt.Sprint(a, k)] = runs
						keepMu.Unlock()
					}
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("deadlock", nil, "%s: concurrent add/remove/fire did not finish\n%s", label, mon.LibStacks())
			return
		}
		for k := range counts {
			for f := range counts[k] {
				if v := counts[k][f].Load(); v != 1 {
					c.Violate("stable-callback-count", nil, "%s: fire %d called the registered callback %d %d times", label, f, k, v)
					return
				}
			}
		}
		want := nStable + len(keepRuns)
		if got := ev.Len(); got != want {
			c.Violate("registration-lost", nil, "%s: %d callbacks registered at the end, %d expected", label, got, want)
		}
		ev.Fire(map[string]interface{}{"probe": true})
		for k, runs := range keepRuns {
			if v := runs.Load(); v != 1 {
				c.Violate("registration-lost", nil, "%s: callback %s ran %d times in the final fire", label, k, v)
			}
		}
		if late.Load() != 0 {
			c.Violate("removed-callback-called", nil, "%s: %d calls of removed callbacks by a later fire", label, late.Load())
		}
		// remove the stable ones in random order
		for _, k := range r.Perm(nStable) {
			ev.RemoveCallback(stable[k])
		}
		if got := ev.Len(); got != want-nStable {
			c.Violate("remove-left", nil, "%s: Len %d after removing %d of %d", label, got, nStable, want)
		}
		c.Case(fmt.Sprint(label, nStable, nFire, nAdd), true)
		c.Count("concurrent_fires", nFire*fires)
	})
}

// A callback that waits for another goroutine's use of the same event must not block it.
func p34Block(c *mon.Ctx) {
	for i := 0; i < c.N(20, 200); i++ {
		label := fmt.Sprintf("block-%d", i)
		if c.Skip(label) {
			continue
		}
		end := c.Begin(label)
		ev := &common.Event{}
		inner := make(chan struct{})
		ev.AddCallback(func(d map[string]interface{}) {
			if d["outer"] == nil {
				return
			}
			go func() {
				switch i % 4 {
				case 0:
					ev.AddCallback(func(map[string]interface{}) {})
				case 1:
					ev.RemoveCallback(func(map[string]interface{}) {})
				case 2:
					ev.Len()
				default:
					ev.Fire(map[string]interface{}{})
				}
				close(inner)
			}()
			<-inner
		})
		if !mon.Within(mon.Hang, func() { ev.Fire(map[string]interface{}{"outer": 1}) }) {
			c.Violate("callback-blocks-event", nil, "%s: a callback waiting for another goroutine's operation %d on the event never returned\n%s", label, i%4, mon.LibStacks())
			end()
			return
		}
		c.Case(label, true)
		end()
	}
}
