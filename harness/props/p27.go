package props

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P27", Race: true, Run: p27,
		Rule: "one case is one trigger call with the event reports it caused, or one S6F11 given to a host with the events it caused; distinct by label and number",
		Assume: []string{"several events of one trigger call may be sent in any order; sending is asynchronous, so values and definitions are left alone until the reports are there, except where the report may show any state in force between the call and its arrival",
			"a trigger call naming an invalid identifier fails; what happens to the valid ones beside it is unspecified"}})
}

func p27(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "trigger", c.N(32, 280), func(label string, i int) { p27Trigger(c, label, i) })
	jobs = addJobs(jobs, "concurrent", c.N(16, 120), func(label string, i int) { p27Concurrent(c, label, i) })
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) { p27Pair(c, label, i) })
	jobs = addJobs(jobs, "host", c.N(12, 80), func(label string, i int) { p27Host(c, label, i) })
	gemJobs(c, 20, jobs)
}

// ackEvents answers S6F11 that want an answer.
func ackEvents(p *peer.Peer, m ref.Msg) bool {
	if m.SType == ref.Data && m.PType == 0 && m.Stream() == 6 && m.Function() == 11 {
		if m.W() {
			p.Send(ref.DataMsg(m.Session, 6, 12, false, m.Sys, ref.Bin(0)))
		}
		return true
	}
	return gemPeer(p, m)
}

func eventReport(m ref.Msg) (data, ce, reports ref.Item, ok bool) {
	it, err := m.Item()
	if err != nil || it.K != ref.L || len(it.List) != 3 {
		return
	}
	return it.List[0], it.List[1], it.List[2], true
}

func isEvent(m ref.Msg) bool {
	return m.SType == ref.Data && m.PType == 0 && m.Stream() == 6 && m.Function() == 11
}

// p27Trigger is the sequential lockstep: one trigger at a time, between changes of everything.
func p27Trigger(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	s.e.setHook(ackEvents)
	r := s.r
	g := newEvStoreSize(s, i%8 >= 6)
	if err := s.G.TriggerCollectionEvent(g.ces[0].goVal(r)); err == nil {
		s.fail("not-communicating", "TriggerCollectionEvent before communication gives no error")
	}
	if !s.comm() {
		return
	}
	mark := s.p.Mark()
	// triggers that must not send as long as nothing changes; a change lets one that is still under way send
	type trig struct {
		at      time.Time
		changes int
	}
	negative, changes := map[gid][]trig{}, 0
	late := func(id gid) bool {
		l := negative[id]
		for len(l) > 0 && time.Since(l[0].at) > 5*time.Second {
			l = l[1:]
		}
		ok := len(l) > 0 && l[0].changes < changes
		if ok {
			l = l[1:]
			c.Count("late reports of triggers before a change (tolerated)", 1)
		}
		negative[id] = l
		return ok
	}
	take := func(exp map[gid]int, total int, call string) bool {
		deadline := time.Now().Add(mon.Hang)
		for {
			evs := s.p.ReceivedFrom(mark)
			mark += len(evs)
			for _, e := range evs {
				if !isEvent(e.Msg) {
					continue
				}
				_, ce, reports, ok := eventReport(e.Msg)
				id, idok := idOf(ce)
				if !ok || !idok {
					s.fail("malformed", "%s: S6F11 is %s", call, e.Msg)
					return false
				}
				if exp[id] == 0 {
					if late(id) {
						continue
					}
					s.fail("unexpected", "after %s: an event report for %v, which %s: %s", call, id, why(g, id), cutStr(e.Msg.String(), 300))
					return false
				}
				d := g.diff(id, ce, reports)
				if d != "" && late(id) {
					continue
				}
				exp[id]--
				total--
				if d != "" {
					s.fail("content", "%s: the event report for %v %s", call, id, d)
					return false
				}
				c.Count("event reports compared", 1)
			}
			if total <= 0 {
				return true
			}
			if time.Now().After(deadline) || s.p.Closed() {
				s.fail("missing", "%s: %d event reports are missing (%v), connection closed %v\n%s", call, total, exp, s.p.Closed(), strings.Join(s.p.Log(8), "\n"))
				return false
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	n := 0
	for k := 0; k < c.N(250, 800) && !s.isBad(); k++ {
		switch r.Intn(10) {
		case 0, 1, 2:
			g.change(nil, false)
			changes++
			if !s.isBad() {
				take(nil, 0, "")
			}
		case 3, 4:
			g.changeVar()
		case 5:
			if r.Intn(10) == 0 {
				args := g.anyArgs(g.ces[:1])
				args = append(args, notGoID(r))
				args = args[r.Intn(2):]
				if len(args) == 1 {
					if err := s.G.TriggerCollectionEvent(args...); err == nil {
						s.fail("bad-id", "TriggerCollectionEvent(%#v) gives no error", args)
					}
					if err := s.G.TriggerCollectionEvent(); err == nil {
						s.fail("no-id", "TriggerCollectionEvent() gives no error")
					}
				}
			}
		default:
			var ids []gid
			m := 1 + r.Intn(3)
			if g.big && r.Intn(5) == 0 {
				m = 30 + r.Intn(80) // the same event may come several times
			}
			for ; m > 0; m-- {
				id := g.pick(g.ces)
				if r.Intn(3) > 0 {
					for t := 0; t < 6 && g.reports(id) == nil; t++ {
						id = g.pick(g.ces)
					}
				}
				ids = append(ids, id)
			}
			exp, total, neg := map[gid]int{}, 0, false
			for _, id := range ids {
				if g.reports(id) != nil {
					exp[id]++
					total++
				} else {
					neg = true
				}
			}
			call := fmt.Sprintf("TriggerCollectionEvent%v", ids)
			s.note("%s, expecting %d", call, total)
			n++
			c.Case(fmt.Sprint(label, n), total > 0)
			if err := s.G.TriggerCollectionEvent(g.anyArgs(ids)...); err != nil && total == len(ids) {
				s.fail("trigger-error", "%s: %v", call, err)
				return
			}
			if !take(exp, total, call) {
				return
			}
			if neg { // give what must not come a chance to show
				time.Sleep(4 * time.Millisecond)
				c.Count("triggers of events that send nothing", 1)
				if !take(map[gid]int{}, 0, call) {
					return
				}
				for _, id := range ids {
					if g.reports(id) == nil {
						negative[id] = append(negative[id], trig{time.Now(), changes})
					}
				}
			}
		}
		if r.Intn(200) == 0 && !s.isBad() {
			s.p.Close()
			s.note("connection ended")
			// an active end may have the next connection up by now, and send there
			if s.e.kind == "equipment passive" {
				if !mon.Eventually(mon.Hang, func() bool { return s.G.State() != gem.CommunicationStateCommunicating }) {
					s.fail("still-communicating", "still communicating after the connection ended")
					return
				}
				if err := s.G.TriggerCollectionEvent(g.ces[0].goVal(r)); err == nil {
					s.fail("not-communicating", "TriggerCollectionEvent without a connection gives no error")
					return
				}
			}
			if !s.link() {
				return
			}
			mark = 0
		}
	}
	if s.isBad() {
		return
	}
	time.Sleep(150 * time.Millisecond)
	take(map[gid]int{}, 0, "")
	if i == 0 {
		c.Sample(map[string]any{"case": label, "last": s.hist[len(s.hist)-3:]})
	}
}

func why(g *evStore, id gid) string {
	l := g.links[id]
	switch {
	case !g.known[id]:
		return "is unknown"
	case l == nil:
		return "is not linked"
	case !l.enabled:
		return "is disabled"
	}
	return "was reported before"
}

// p27Concurrent: workers trigger their events while the definitions go round a ring of states in
// each of which every event is linked and enabled; exactly one report per trigger, showing one
// state in force and values in force between the call and the arrival.
func p27Concurrent(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	const workers = 4
	var sent, acked atomic.Int64 // changes of definition
	var tick atomic.Uint64       // value of variable 1
	type arrival struct {
		m    ref.Msg
		high int64
		tick uint64
	}
	var in [workers]chan arrival
	for w := range in {
		in[w] = make(chan arrival, 10000)
	}
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if isEvent(m) {
			if _, ce, _, ok := eventReport(m); ok {
				if id, ok := idOf(ce); ok && !id.isStr && id.num < workers {
					in[id.num] <- arrival{m, sent.Load(), tick.Load()}
					return true
				}
			}
			s.fail("malformed", "S6F11 is %s", m)
		}
		return gemPeer(p, m)
	})
	slow := r.Intn(3) == 0
	reg := func(k int, prov func() (ast.ItemNode, error)) {
		var err error
		if k%2 == 0 {
			v, _ := gem.NewDataVariable(k, "v", gem.WithDataValueProvider(prov))
			err = s.G.RegisterDataVariable(v)
		} else {
			v, _ := gem.NewStatusVariable(k, "v", "", gem.WithStatusValueProvider(prov))
			err = s.G.RegisterStatusVariable(v)
		}
		if err != nil {
			s.fail("register", "%v", err)
		}
	}
	reg(1, func() (ast.ItemNode, error) {
		v := tick.Load()
		if slow {
			time.Sleep(200 * time.Microsecond)
		}
		return ast.NewUintNode(8, v), nil
	})
	for k := 2; k < 12; k++ {
		reg(k, func() (ast.ItemNode, error) { return ast.NewUintNode(1, k), nil })
	}
	for w := 0; w < workers; w++ {
		ce, _ := gem.NewCollectionEvent(w, "e")
		if err := s.G.RegisterCollectionEvent(ce); err != nil {
			s.fail("register", "%v", err)
		}
	}
	if !s.comm() {
		return
	}
	type def struct {
		rpt  uint64
		vids []uint64
	}
	var mu sync.Mutex
	var states [][]def
	u := func(v uint64) ref.Item { return ref.Uint(ref.U4, v) }
	do := func(st, fn int, body ref.Item, next []def) bool {
		mu.Lock()
		states = append(states, next)
		mu.Unlock()
		s.note("S%dF%d %s", st, fn, cutStr(body.String(), 200))
		sent.Add(1)
		it, ok := s.ask(st, fn, body)
		acked.Add(1)
		if ok && ack1(it) != 0 {
			s.fail("change-refused", "S%dF%d %s is answered with %s", st, fn, body, it)
			return false
		}
		return ok
	}
	defBody := func(ds ...def) ref.Item {
		out := ref.Item{K: ref.L}
		for _, d := range ds {
			v := ref.Item{K: ref.L}
			for _, x := range d.vids {
				v.List = append(v.List, u(x))
			}
			out.List = append(out.List, ref.Lst(u(d.rpt), v))
		}
		return ref.Lst(u(0), out)
	}
	linkBody := func(rpts ...uint64) ref.Item {
		out := ref.Item{K: ref.L}
		v := ref.Item{K: ref.L}
		for _, x := range rpts {
			v.List = append(v.List, u(x))
		}
		for w := uint64(0); w < workers; w++ {
			out.List = append(out.List, ref.Lst(u(w), v))
		}
		return ref.Lst(u(0), out)
	}
	genVids := func() []uint64 {
		out := []uint64{1}
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, uint64(2+r.Intn(10)))
		}
		r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
		return out
	}
	cur := []def{{1, genVids()}}
	if !do(2, 33, defBody(cur...), nil) || !do(2, 35, linkBody(1), cur) {
		return
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for !stop.Load() {
			tick.Add(1)
			time.Sleep(20 * time.Microsecond)
		}
	}()
	total := c.N(60, 250)
	for w := 0; w < workers; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer stop.Store(true)
			for n := 0; n < total && !s.isBad(); n++ {
				burst := 1 + wr.Intn(3)
				low, tlow := acked.Load(), tick.Load()
				var ids []any
				for b := 0; b < burst; b++ {
					ids = append(ids, w)
				}
				var err error
				if wr.Intn(2) == 0 {
					err = s.G.TriggerCollectionEvent(ids...)
				} else {
					for range ids {
						if e := s.G.TriggerCollectionEvent(w); e != nil {
							err = e
						}
					}
				}
				if err != nil {
					s.fail("trigger-error", "trigger of %d: %v", w, err)
					return
				}
				c.Case(fmt.Sprint(label, w, n), true)
				for b := 0; b < burst; b++ {
					var a arrival
					select {
					case a = <-in[w]:
					case <-time.After(mon.Hang):
						s.fail("missing", "event %d triggered %d times gave %d reports\n%s", w, burst, b, strings.Join(s.p.Log(8), "\n"))
						return
					}
					_, _, reports, _ := eventReport(a.m)
					mu.Lock()
					cand := states[low-1 : a.high]
					mu.Unlock()
					c.Count("event reports checked under redefinition", 1)
					if len(cand) > 1 {
						c.Count("of these with a change meanwhile", 1)
					}
					okState := false
					for _, st := range cand {
						m := len(st) == len(reports.List)
						for k := 0; m && k < len(st); k++ {
							e := reports.List[k]
							m = e.K == ref.L && len(e.List) == 2 && ref.Equal(e.List[0], u(st[k].rpt).Normal()) && len(e.List[1].List) == len(st[k].vids)
							for j := 0; m && j < len(st[k].vids); j++ {
								v := e.List[1].List[j]
								if st[k].vids[j] == 1 {
									m = v.K == ref.U8 && len(v.Words) == 1 && v.Words[0] >= tlow && v.Words[0] <= a.tick
								} else {
									m = ref.Equal(v, ref.Uint(ref.U1, st[k].vids[j]))
								}
							}
						}
						okState = okState || m
					}
					if !okState {
						s.fail("mixture", "the report of event %d, %s, matches none of the %d states in force between trigger and arrival (value of variable 1 between %d and %d): %v", w, cutStr(reports.String(), 300), len(cand), tlow, a.tick, cand)
						return
					}
				}
			}
		}(w)
	}
	for !stop.Load() && !s.isBad() {
		add := cur[0].rpt%3 + 1
		if len(cur) > 1 {
			// drop the first, or the second
			k := r.Intn(2)
			gone := cur[k].rpt
			cur = []def{cur[1-k]}
			body := defBody(def{gone, nil})
			if !do(2, 33, body, cur) {
				break
			}
			continue
		}
		d := def{add, genVids()}
		if !do(2, 33, defBody(d), cur) {
			break
		}
		cur = []def{cur[0], d}
		if !do(2, 35, linkBody(add), cur) {
			break
		}
	}
	stop.Store(true)
	wg.Wait()
	if s.isBad() {
		return
	}
	time.Sleep(20 * time.Millisecond)
	for w := range in {
		if len(in[w]) > 0 {
			a := <-in[w]
			s.fail("extra", "event %d: %d reports more than triggers: %s", w, len(in[w])+1, a.m)
		}
	}
	c.Count("definition changes under triggers", int(sent.Load()))
}

// collect gathers the event reports a host fires.
type collect struct {
	mu  sync.Mutex
	got []gem.EventReport
	bad int
}

func (k *collect) add(d map[string]interface{}) {
	k.mu.Lock()
	defer k.mu.Unlock()
	rep, ok := d["report"].(gem.EventReport)
	if !ok {
		k.bad++
		return
	}
	k.got = append(k.got, rep)
}

func (k *collect) n() int { k.mu.Lock(); defer k.mu.Unlock(); return len(k.got) + k.bad }

// p27Pair: what the library equipment triggers is what the library host delivers.
func p27Pair(c *mon.Ctx, label string, i int) {
	s := newGemPair(c, label, nil)
	if s == nil {
		return
	}
	defer s.close()
	if !s.comm() {
		return
	}
	var k collect
	s.H.Events().EventReportReceived.AddCallback(k.add)
	r := s.r
	g := newEvStoreSize(s.gemRig, i%4 == 3)
	seen := 0
	for n := 0; n < c.N(150, 500) && !s.isBad(); n++ {
		switch r.Intn(4) {
		case 0:
			g.change(s.H, false)
		case 1:
			g.changeVar()
		default:
			id := g.ces[r.Intn(len(g.ces))]
			times := 0
			if g.reports(id) != nil {
				times = 1 + r.Intn(2)
			}
			if times == 0 {
				continue
			}
			c.Case(fmt.Sprint(label, n), true)
			var args []any
			for t := 0; t < times; t++ {
				args = append(args, id.goVal(r))
			}
			s.note("trigger %v %d times", id, times)
			if err := s.E.TriggerCollectionEvent(args...); err != nil {
				s.fail("trigger-error", "trigger of %v: %v", id, err)
				return
			}
			if !mon.Eventually(mon.Hang, func() bool { return k.n() >= seen+times }) {
				s.fail("missing", "event %v triggered %d times, the host delivered %d reports", id, times, k.n()-seen)
				return
			}
			k.mu.Lock()
			got, bad := append([]gem.EventReport(nil), k.got[min(seen, len(k.got)):]...), k.bad
			k.mu.Unlock()
			if len(got) != times || bad > 0 {
				s.fail("extra", "event %v triggered %d times, the host delivered %d reports", id, times, len(got)+bad)
				return
			}
			seen += times
			for _, rep := range got {
				ceid, it := reportItem(rep)
				if d := g.diff(id, ceid, it); d != "" {
					s.fail("pair-content", "the report of event %v delivered by the host %s", id, d)
					return
				}
				c.Count("reports delivered by a library host from a library equipment", 1)
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	if k.n() != seen && !s.isBad() {
		s.fail("extra", "the host delivered %d reports, %d were triggered", k.n(), seen)
	}
}

// p27Host: a raw equipment sends event reports, well-formed and not.
func p27Host(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	if !s.comm() {
		return
	}
	var k, k2 collect
	s.G.Events().EventReportReceived.AddCallback(k.add)
	s.G.Events().EventReportReceived.AddCallback(k2.add)
	r := s.r
	want := 0
	for n := 0; n < c.N(150, 600) && !s.isBad(); n++ {
		data := []ref.Item{ref.Uint(ref.U1, 3), ref.Uint(ref.U4, 1<<32-1), ref.Int(ref.I2, 5), ref.Bin(9), ref.Uint(ref.U2, 0), ref.Uint(ref.U8, 1<<32+r.Uint64()>>2), ref.Int(ref.I8, 1<<40+int64(r.Intn(1000))), ref.Int(ref.I4, 1<<31-1)}[r.Intn(8)]
		ce := genID(r)
		reports := ref.Item{K: ref.L}
		for m := r.Intn(4); m > 0; m-- {
			vals := ref.Item{K: ref.L}
			for v := r.Intn(5); v > 0; v-- {
				vals.List = append(vals.List, ref.Gen(r, 2, 4))
			}
			reports.List = append(reports.List, ref.Lst(genID(r).wire(r), vals))
		}
		body := ref.Lst(data, ce.wire(r), reports)
		wrong := r.Intn(5) == 0
		if wrong {
			switch r.Intn(7) {
			case 0:
				body = ref.Item{}
			case 1:
				body = ref.Asc("x")
			case 2:
				body = ref.Lst(data, ce.wire(r))
			case 3:
				body = ref.Lst(data, notID(r), reports)
			case 4:
				body = ref.Lst(data, ce.wire(r), ref.Asc("x"))
			case 5:
				reports.List = append(reports.List, ref.Lst(genID(r).wire(r)))
				body = ref.Lst(data, ce.wire(r), reports)
			case 6:
				reports.List = append(reports.List, ref.Lst(notID(r), ref.Lst()))
				body = ref.Lst(data, ce.wire(r), reports)
			}
		}
		w := r.Intn(2) == 0
		s.note("S6F11 %s W=%v", cutStr(body.String(), 300), w)
		c.Case(fmt.Sprint(label, n), true)
		if w {
			it, ok := s.ask(6, 11, body)
			if !ok {
				return
			}
			if a := ack1(it); wrong && a <= 0 || !wrong && a != 0 {
				s.fail("s6f12", "S6F11 %s (malformed %v) is answered with %s", cutStr(body.String(), 300), wrong, it)
				return
			}
		} else {
			mark := s.p.Mark()
			s.p.Send(ref.DataMsg(s.p.Session, 6, 11, false, s.p.NextSys(), body))
			if !s.p.Linktest(mon.Hang) {
				s.fail("no-barrier", "no answer to a linktest after S6F11 %s", body)
				return
			}
			for _, e := range s.p.ReceivedFrom(mark) {
				if e.Msg.SType == ref.Data && e.Msg.Stream() == 6 {
					s.fail("unasked-ack", "S6F11 without W is answered with %s", e.Msg)
				}
			}
		}
		if !wrong {
			want++
		}
		if !mon.Eventually(mon.Hang, func() bool { return k.n() >= want && k2.n() >= want }) || k.n() != want || k2.n() != want {
			s.fail("delivered", "after S6F11 %s (malformed %v) the callbacks were called %d and %d times, expected %d", cutStr(body.String(), 300), wrong, k.n(), k2.n(), want)
			return
		}
		if wrong {
			c.Count("malformed event reports", 1)
			continue
		}
		c.Count("event reports delivered from a raw equipment", 1)
		for _, kk := range []*collect{&k, &k2} {
			kk.mu.Lock()
			if kk.bad > 0 || len(kk.got) != want {
				kk.mu.Unlock()
				s.fail("delivered", "no EventReport delivered")
				return
			}
			rep := kk.got[want-1]
			kk.mu.Unlock()
			id, it := reportItem(rep)
			if !isID(id, ce) || rep.DATAID != int(data.Words[0]) || len(it.List) != len(reports.List) {
				s.fail("delivered", "S6F11 %s is delivered as DATAID %d CEID %v %s", cutStr(body.String(), 300), rep.DATAID, rep.CEID, cutStr(it.String(), 300))
				return
			}
			for j := range it.List {
				a, _ := idOf(it.List[j].List[0])
				b, _ := idOf(reports.List[j].List[0])
				if a != b || !ref.Equal(it.List[j].List[1], reports.List[j].List[1].Normal()) {
					s.fail("delivered", "report %d of S6F11 %s is delivered as %s", j, cutStr(body.String(), 300), cutStr(it.List[j].String(), 300))
					return
				}
			}
		}
	}
}
