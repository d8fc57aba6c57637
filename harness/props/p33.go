package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/utils"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P33", Run: p33,
		Rule:   "queue histories (put and get invocations and responses with monotonic times) recorded under seeded concurrency and judged offline; non-trivial when a get had to wait or several takers or putters overlapped; distinct by recorded history",
		Assume: []string{"time.Now is monotonic; the only upper time bound asserted is a 30 s watchdog on waits that have an item available"}})
}

type dqOp struct {
	put      bool
	v        int
	ok       bool
	inv, ret time.Time
	limit    time.Duration
	who      int
}

func p33(c *mon.Ctx) {
	p33Seq(c)
	p33Wake(c)
	p33Conc(c)
	p33Timeout(c)
}

func p33Seq(c *mon.Ctx) {
	for i := 0; i < c.N(300, 6000); i++ {
		label := fmt.Sprintf("seq-%d", i)
		if c.Skip(label) || c.Broken() {
			continue
		}
		end := c.Begin(label)
		r := c.Rng(label)
		q := utils.NewDeque()
		var model []int
		next := 0
		hist := ""
		for o := 0; o < 4+r.Intn(60); o++ {
			if len(model) == 0 && r.Intn(30) > 0 || r.Intn(2) == 0 {
				q.Put(next)
				model = append(model, next)
				next++
				hist += "p"
				continue
			}
			to := r.Intn(3)
			if len(model) == 0 {
				to = 0
			}
			v, err := q.Get(to)
			hist += "g"
			if len(model) == 0 {
				if err == nil {
					c.Violate("get-invents", hist, "%s: Get returned %v from an empty queue", label, v)
				}
				continue
			}
			if err != nil || v != interface{}(model[0]) {
				c.Violate("get-wrong", hist, "%s: Get returned %v, %v; front is %d", label, v, err, model[0])
				break
			}
			model = model[1:]
		}
		// nil is an item like any other
		q.Put(nil)
		for range model {
			q.Get(0)
		}
		q.Put("behind")
		if v, err := q.Get(0); err != nil || v != nil {
			c.Violate("nil-item", hist, "%s: a nil item came back as %v, %v", label, v, err)
		}
		if v, err := q.Get(0); err != nil || v != "behind" {
			c.Violate("nil-item", hist, "%s: the item behind a nil item came back as %v, %v", label, v, err)
		}
		c.Case(fmt.Sprint(label, hist), strings.Contains(hist, "pp"))
		end()
	}
}

// Waiters with a long limit and items put while they wait: every waiter returns long before its limit.
func p33Wake(c *mon.Ctx) {
	n := c.N(250, 8000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("wake-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		q := utils.NewDeque()
		takers := 1 + r.Intn(8)
		items := takers + r.Intn(3)
		pre := 0
		if r.Intn(3) == 0 {
			pre = r.Intn(items)
		}
		for k := 0; k < pre; k++ {
			q.Put(k)
		}
		var got sync.Map
		var dup atomic.Int32
		var fails atomic.Int32
		var wg sync.WaitGroup
		limits := make([]int, takers)
		for t := range limits {
			limits[t] = []int{60, 127, 128, 200, 256, 300, 3600, 32768, 65536, 1 << 20, 1<<31 - 1, 1 << 32}[r.Intn(12)]
		}
		for t := 0; t < takers; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				v, err := q.Get(limits[t])
				if err != nil {
					fails.Add(1)
					return
				}
				if _, was := got.LoadOrStore(v, true); was {
					dup.Add(1)
				}
			}()
		}
		gap := time.Duration(r.Intn(4)) * 100 * time.Microsecond
		putters := 1 + r.Intn(3)
		var pw sync.WaitGroup
		for p := 0; p < putters; p++ {
			p := p
			pw.Add(1)
			go func() {
				defer pw.Done()
				for k := pre + p; k < items; k += putters {
					if gap > 0 {
						time.Sleep(gap)
					}
					q.Put(k)
				}
			}()
		}
		pw.Wait()
		if !mon.Within(30*time.Second, wg.Wait) {
			c.Violate("lost-wakeup", map[string]any{"takers": takers, "items": items, "preloaded": pre, "putters": putters},
				"%s: %d takers waited with limits of a minute and more, %d items were put, and a taker still waits 30 s later\n%s", label, takers, items, mon.LibStacks())
			return
		}
		if fails.Load() > 0 || dup.Load() > 0 {
			c.Violate("get-fails-or-duplicates", nil, "%s: limits %v s: %d failed and %d duplicate gets", label, limits, fails.Load(), dup.Load())
		}
		c.Case(fmt.Sprint("wake", takers, items, pre, putters, gap), true)
		c.Count("waits_ended_by_put", takers)
	})
}

func p33Conc(c *mon.Ctx) {
	n := c.N(60, 1500)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("conc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		q := utils.NewDeque()
		putters, takers := 1+r.Intn(4), 1+r.Intn(4)
		per := 20 + r.Intn(60)
		total := putters * per
		var mu sync.Mutex
		var ops []dqOp
		var taken atomic.Int32
		var wg sync.WaitGroup
		seeds := make([]int64, putters+takers)
		for k := range seeds {
			seeds[k] = r.Int63()
		}
		for p := 0; p < putters; p++ {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := uint64(seeds[p])
				for k := 0; k < per; k++ {
					x = x*6364136223846793005 + 1442695040888963407
					if x>>60 == 0 {
						time.Sleep(time.Duration(x>>40%2000) * time.Microsecond)
					}
					o := dqOp{put: true, v: p*1000 + k, who: p, inv: time.Now()}
					q.Put(o.v)
					o.ret = time.Now()
					mu.Lock()
					ops = append(ops, o)
					mu.Unlock()
				}
			}()
		}
		for t := 0; t < takers; t++ {
			t := t
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := uint64(seeds[putters+t])
				for int(taken.Load()) < total {
					x = x*6364136223846793005 + 1442695040888963407
					lim := int(x>>62) % 2
					o := dqOp{who: t, inv: time.Now(), limit: time.Duration(lim) * time.Second}
					v, err := q.Get(lim)
					o.ret = time.Now()
					if err == nil {
						o.ok = true
						o.v, _ = v.(int)
						taken.Add(1)
					}
					mu.Lock()
					ops = append(ops, o)
					mu.Unlock()
					if err != nil && lim == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("stuck", nil, "%s: %d of %d items taken and takers never finish\n%s", label, taken.Load(), total, mon.LibStacks())
			return
		}
		if v, err := q.Get(0); err == nil {
			c.Violate("extra-item", nil, "%s: item %v left after all %d were taken", label, v, total)
		}
		p33Judge(c, label, ops, total)
		c.Case(fmt.Sprint(label, len(ops)), putters+takers > 2)
		c.Count("history_operations", len(ops))
	})
}

// p33Judge checks conservation, real-time FIFO and that no get failed while an item was there
// throughout its last look.
func p33Judge(c *mon.Ctx, label string, ops []dqOp, total int) {
	puts := map[int]dqOp{}
	gets := map[int]dqOp{}
	var failed []dqOp
	for _, o := range ops {
		switch {
		case o.put:
			puts[o.v] = o
		case o.ok:
			if _, dup := gets[o.v]; dup {
				c.Violate("taken-twice", nil, "%s: item %d was taken twice", label, o.v)
				return
			}
			gets[o.v] = o
		default:
			failed = append(failed, o)
		}
	}
	if len(gets) != total {
		c.Violate("conservation", nil, "%s: %d items put, %d distinct taken", label, total, len(gets))
		return
	}
	var vs []int
	for v := range puts {
		if _, ok := gets[v]; !ok {
			c.Violate("conservation", nil, "%s: item %d was never taken", label, v)
			return
		}
		vs = append(vs, v)
	}
	sort.Slice(vs, func(a, b int) bool { return puts[vs[a]].inv.Before(puts[vs[b]].inv) })
	// FIFO: put(a) returned before put(b) was called, yet get(b) returned before get(a) was called.
	for x := range vs {
		a := vs[x]
		for y := x + 1; y < len(vs); y++ {
			b := vs[y]
			if puts[a].ret.Before(puts[b].inv) && gets[b].ret.Before(gets[a].inv) {
				c.Violate("order", nil, "%s: item %d was put before %d but taken after it", label, a, b)
				return
			}
		}
	}
	for _, f := range failed {
		if f.ret.Sub(f.inv) < f.limit {
			c.Violate("early-timeout", nil, "%s: Get(%v) failed after %v", label, f.limit, f.ret.Sub(f.inv))
			return
		}
		deadline := f.inv.Add(f.limit)
		for _, v := range vs {
			if puts[v].ret.Before(deadline) && gets[v].inv.After(f.ret) {
				c.Violate("missed-item", nil, "%s: Get(%v) called at +0 failed at +%v although item %d was put by +%v and taken only by a Get called later",
					label, f.limit, f.ret.Sub(f.inv), v, puts[v].ret.Sub(f.inv))
				return
			}
		}
	}
	c.Count("failed_gets_judged", len(failed))
}

func p33Timeout(c *mon.Ctx) {
	label := "timeout"
	if c.Skip(label) {
		return
	}
	defer c.Begin(label)()
	reps := c.N(2, 20)
	for rep := 0; rep < reps; rep++ {
		var wg sync.WaitGroup
		q := utils.NewDeque()
		// limits 1 and 2 s on queues that stay empty, or whose item comes at the very end
		for k := 0; k < 120; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := q
				lim := 1
				if k%3 == 1 {
					lim = 2
				}
				if k%4 == 0 {
					mine = utils.NewDeque()
				}
				t0 := time.Now()
				v, err := mine.Get(lim)
				el := time.Since(t0)
				if err == nil {
					c.Violate("get-invents", nil, "Get on an empty queue returned %v", v)
				} else if el < time.Duration(lim)*time.Second {
					c.Violate("early-timeout", nil, "Get(%d) failed after %v", lim, el)
				}
				c.Case(fmt.Sprint("to", rep, k), true)
			}()
		}
		// an item put close to the end of the wait
		for k := 0; k < 60; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := utils.NewDeque()
				var put dqOp
				done := make(chan struct{})
				inv := time.Now()
				go func() {
					defer close(done)
					time.Sleep(time.Second - time.Duration(30-k)*100*time.Microsecond)
					d.Put(1)
					put.ret = time.Now()
				}()
				_, err := d.Get(1)
				<-done
				if err != nil && put.ret.Before(inv.Add(time.Second)) {
					c.Violate("missed-item", nil, "Get(1) failed although the item was there %v before its limit", inv.Add(time.Second).Sub(put.ret))
				}
				if err != nil {
					if v, err2 := d.Get(0); err2 != nil || v != interface{}(1) {
						c.Violate("item-lost-at-timeout", nil, "a Get that timed out swallowed the item: %v %v", v, err2)
					}
				}
				c.Case(fmt.Sprint("edge", rep, k), true)
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("timeout-never", nil, "Get with a 1-2 s limit has not returned after 40 s\n%s", mon.LibStacks())
			return
		}
	}
	if !mon.Eventually(10*time.Second, func() bool { return !strings.Contains(mon.LibStacks(), "utils.(*Deque)") }) {
		c.Violate("waiter-leaks", nil, "goroutines left in the queue\n%s", mon.LibStacks())
	}
}
