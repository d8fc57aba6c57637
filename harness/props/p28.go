package props

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/younglifestyle/secs4go/gem"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P28", Race: true, Run: p28,
		Rule: "one case is one alarm operation (raise, clear, register, enable or disable locally, by S5F3 or by a host call, list) compared with the alarm table model, or one S5F1 given to a host; distinct by label and number",
		Assume: []string{"texts are 7-bit ASCII; ALED other than 0 and 128 and an ALID outside a list are not generated, an ALCD given to a host is 0 or has bit 8 set",
			"in S5F1 of the equipment any ALCD but 0 means set; the order of listed alarms is free; reserved bits of ALCD are not compared",
			"an alarm raised without communication is an error and changes nothing"}})
}

type alarmTable struct {
	s *gemRig
	r *rand.Rand
	m map[int]*gem.Alarm
	p []int
}

var alarmNums = []int{0, 1, 2, 127, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt, -1, -2, math.MinInt, math.MinInt + 1, -(1 << 31)}

func genAlarmID(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0, 1:
		return alarmNums[r.Intn(len(alarmNums))]
	case 2:
		return r.Intn(10)
	}
	return int(r.Uint64() >> uint(r.Intn(64)))
}

// alarmItem is an ALID in some format that holds it.
func alarmItem(r *rand.Rand, id int) ref.Item {
	if id >= 0 {
		return gid{num: uint64(id)}.wire(r)
	}
	var c []ref.Item
	for _, k := range []ref.Kind{ref.I1, ref.I2, ref.I4, ref.I8} {
		if w := uint(ref.Width[k])*8 - 1; int64(id) >= -(1 << w) {
			c = append(c, ref.Int(k, int64(id)))
		}
	}
	return c[r.Intn(len(c))]
}

// alarmNum reads an ALID back.
func alarmNum(it ref.Item) (int, bool) {
	switch {
	case it.IsUint() && len(it.Words) == 1 && it.Words[0] <= math.MaxInt:
		return int(it.Words[0]), true
	case it.IsInt() && len(it.Words) == 1:
		return int(it.SignedAt(0)), true
	}
	return 0, false
}

// alarmReport reads an S5F1.
func alarmReport(m ref.Msg) (id int, text string, set, ok bool) {
	it, err := m.Item()
	if err != nil || it.K != ref.L || len(it.List) != 3 || it.List[0].K != ref.B || len(it.List[0].Words) != 1 || it.List[2].K != ref.A {
		return
	}
	id, ok = alarmNum(it.List[1])
	return id, it.List[2].Str(), it.List[0].Words[0] != 0, ok
}

func isAlarm(m ref.Msg) bool {
	return m.SType == ref.Data && m.PType == 0 && m.Stream() == 5 && m.Function() == 1
}

func ackAlarms(p *peer.Peer, m ref.Msg) bool {
	if isAlarm(m) {
		if m.W() {
			p.Send(ref.DataMsg(m.Session, 5, 2, false, m.Sys, ref.Bin(0)))
		}
		return true
	}
	return gemPeer(p, m)
}

func (g *alarmTable) pick() int {
	if g.r.Intn(8) == 0 {
		return genAlarmID(g.r)
	}
	return g.p[g.r.Intn(len(g.p))]
}

func (g *alarmTable) register(id int) {
	a := gem.Alarm{ID: id, Text: gemText(g.r, []int{60, 60, 60, 60, 600}[g.r.Intn(5)]), Set: g.r.Intn(3) == 0, Enabled: g.r.Intn(2) == 0}
	g.s.note("register %+v", a)
	g.s.G.RegisterAlarm(a)
	a.Enabled = true
	g.m[id] = &a
}

func (g *alarmTable) expect(enabledOnly bool) map[int]gem.AlarmInfo {
	out := map[int]gem.AlarmInfo{}
	for id, a := range g.m {
		if a.Enabled || !enabledOnly {
			out[id] = gem.AlarmInfo{ID: id, Text: a.Text, Set: a.Set, Enabled: a.Enabled}
		}
	}
	return out
}

// listItem reads S5F6 or S5F8.
func listItem(it ref.Item) ([]gem.AlarmInfo, string) {
	if it.K != ref.L {
		return nil, "no list: " + it.String()
	}
	var out []gem.AlarmInfo
	for _, e := range it.List {
		if e.K != ref.L || len(e.List) != 3 || e.List[0].K != ref.B || len(e.List[0].Words) != 1 || e.List[2].K != ref.A {
			return nil, "malformed entry " + e.String()
		}
		id, ok := alarmNum(e.List[1])
		if !ok {
			return nil, "identifier " + e.List[1].String()
		}
		w := e.List[0].Words[0]
		out = append(out, gem.AlarmInfo{ID: id, Text: e.List[2].Str(), Set: w&0x80 != 0, Enabled: w&0x40 != 0})
	}
	return out, ""
}

func diffAlarms(got []gem.AlarmInfo, want map[int]gem.AlarmInfo) string {
	seen := map[int]bool{}
	for _, a := range got {
		w, ok := want[a.ID]
		switch {
		case !ok:
			return fmt.Sprintf("alarm %d is listed", a.ID)
		case seen[a.ID]:
			return fmt.Sprintf("alarm %d is listed twice", a.ID)
		case a != w:
			return fmt.Sprintf("alarm %+v is listed as %+v", w, a)
		}
		seen[a.ID] = true
	}
	for id := range want {
		if !seen[id] {
			return fmt.Sprintf("alarm %d is not listed", id)
		}
	}
	return ""
}

func (g *alarmTable) list(h *gem.GemHandler) {
	enabled := g.r.Intn(2) == 0
	var got []gem.AlarmInfo
	var bad string
	if h != nil {
		var err error
		if enabled {
			got, err = h.RequestEnabledAlarmList()
		} else {
			got, err = h.RequestAlarmList()
		}
		if err != nil {
			bad = err.Error()
		}
	} else {
		fn := 5
		if enabled {
			fn = 7
		}
		body := []ref.Item{{}, ref.Lst()}[g.r.Intn(2)]
		it, ok := g.s.ask(5, fn, body)
		if !ok {
			return
		}
		got, bad = listItem(it)
	}
	if bad == "" {
		bad = diffAlarms(got, g.expect(enabled))
	}
	g.s.c.Count("alarm lists compared", 1)
	if bad != "" {
		g.s.fail("list", "alarm list (enabled only: %v): %s", enabled, bad)
	}
}

// enable changes enables by S5F3.
func (g *alarmTable) enable(h *gem.GemHandler) {
	r, s := g.r, g.s
	on := r.Intn(2) == 0
	var ids []int
	var w []ref.Item
	unknown, malformed := false, false
	var known []int
	for _, id := range g.p {
		if g.m[id] != nil {
			known = append(known, id)
		}
	}
	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = 200 + r.Intn(300) // the same alarm may come several times
	}
	stray, big := 12, n > 12 && r.Intn(4) > 0
	if big {
		stray = 4 * n
	}
	for ; n > 0; n-- {
		id := g.p[r.Intn(len(g.p))]
		if big && len(known) > 0 {
			id = known[r.Intn(len(known))]
		}
		if r.Intn(stray) == 0 {
			id = genAlarmID(r)
		}
		ids = append(ids, id)
		unknown = unknown || g.m[id] == nil
		w = append(w, alarmItem(r, id))
	}
	aled := ref.Bin(0)
	if on {
		aled = ref.Bin(128)
	}
	body := ref.Lst(aled, ref.Lst(w...))
	if h == nil && r.Intn(6) == 0 {
		malformed = true
		switch r.Intn(6) {
		case 0:
			body = ref.Lst(aled)
		case 1:
			body = ref.Item{}
		case 2:
			body = ref.Lst(ref.Lst(), ref.Lst(w...))
		case 3:
			bad := []ref.Item{ref.Asc("1"), {K: ref.U4}, {K: ref.I2}, ref.Float(ref.F4, 1), ref.Lst(), ref.Bin(1), ref.Uint(ref.U8, 1<<63), ref.Uint(ref.U8, math.MaxUint64), ref.Uint(ref.U8, math.MaxUint64-1)}[r.Intn(9)]
			body = ref.Lst(aled, ref.Lst(append(append([]ref.Item{}, w...), bad)...))
		case 4:
			body = ref.Lst(ref.Asc("x"), ref.Lst(w...))
		case 5:
			body = ref.Lst(ref.Item{K: ref.B}, ref.Lst(w...))
		}
	}
	s.note("S5F3 %s", body)
	code := 0
	if h != nil {
		c, err := h.SendEnableAlarm(ids, on)
		if err != nil {
			s.fail("host-call", "SendEnableAlarm(%v, %v): %v", ids, on, err)
			return
		}
		code = int(c)
	} else {
		it, ok := s.ask(5, 3, body)
		if !ok {
			return
		}
		code = ack1(it)
	}
	s.c.Count(fmt.Sprintf("S5F3 answered %d", code), 1)
	if (unknown || malformed) && code <= 0 || !unknown && !malformed && code != 0 {
		s.fail("s5f4", "S5F3 %s (unknown alarm %v, malformed %v) is answered with %d", body, unknown, malformed, code)
		return
	}
	if code == 0 {
		for _, id := range ids {
			g.m[id].Enabled = on
		}
	}
}

func p28(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(40, 320), func(label string, i int) { p28Wire(c, label, i) })
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) { p28Pair(c, label, i) })
	jobs = addJobs(jobs, "concurrent", c.N(12, 80), func(label string, i int) { p28Concurrent(c, label, i) })
	jobs = addJobs(jobs, "host", c.N(12, 80), func(label string, i int) { p28Host(c, label, i) })
	jobs = addJobs(jobs, "asked", c.N(12, 80), func(label string, i int) { p28Asked(c, label, i) })
	gemJobs(c, 20, jobs)
}

func newAlarmTable(s *gemRig) *alarmTable {
	g := &alarmTable{s: s, r: s.r, m: map[int]*gem.Alarm{}}
	n := 2 + s.r.Intn(8)
	if s.r.Intn(5) == 0 {
		n = 260 + s.r.Intn(200)
	}
	for len(g.p) < n {
		id := genAlarmID(s.r)
		dup := false
		for _, x := range g.p {
			dup = dup || x == id
		}
		if !dup {
			g.p = append(g.p, id)
		}
	}
	for _, id := range g.p {
		if s.r.Intn(5) > 0 {
			g.register(id)
		}
	}
	return g
}

// raise calls RaiseAlarm or ClearAlarm; sends: an S5F1 must come.
func (g *alarmTable) raise(id int, comm bool) (sends, ok bool) {
	set := g.r.Intn(3) > 0
	var err error
	if !set && g.r.Intn(2) == 0 {
		err = g.s.G.ClearAlarm(id)
	} else {
		err = g.s.G.RaiseAlarm(id, set)
	}
	g.s.note("raise %d %v: %v", id, set, err)
	a := g.m[id]
	if want := a == nil || !comm; want != (err != nil) {
		g.s.fail("raise-error", "RaiseAlarm(%d, %v), known %v, communicating %v, gives %v", id, set, a != nil, comm, err)
		return false, false
	}
	if err != nil {
		return false, true
	}
	a.Set = set
	return a.Enabled, true
}

func p28Wire(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	s.e.setHook(ackAlarms)
	r := s.r
	g := newAlarmTable(s)
	if _, ok := g.raise(g.p[0], false); !ok {
		return
	}
	if !s.comm() {
		return
	}
	mark := 0
	for k := 0; k < c.N(300, 900) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		expect, id := 0, 0
		switch r.Intn(10) {
		case 0:
			g.register(g.p[r.Intn(len(g.p))])
		case 1:
			id := g.pick()
			on := r.Intn(2) == 0
			err := error(nil)
			if on {
				err = s.G.EnableAlarm(id)
			} else {
				err = s.G.DisableAlarm(id)
			}
			s.note("enable %d %v: %v", id, on, err)
			if (g.m[id] == nil) != (err != nil) {
				s.fail("enable-error", "EnableAlarm/DisableAlarm(%d), known %v, gives %v", id, g.m[id] != nil, err)
			} else if err == nil {
				g.m[id].Enabled = on
			}
		case 2, 3:
			g.enable(nil)
		case 4, 5:
			g.list(nil)
		default:
			id = g.pick()
			sends, ok := g.raise(id, true)
			if !ok {
				return
			}
			if sends {
				expect = 1
			} else {
				c.Count("raises and clears that send nothing", 1)
			}
		}
		if s.isBad() {
			return
		}
		if expect > 0 {
			if _, ok := s.p.AwaitFrom(mark, mon.Hang, isAlarm); !ok {
				s.fail("missing", "no S5F1 for alarm %d\n%s", id, strings.Join(s.p.Log(8), "\n"))
				return
			}
		}
		if expect == 0 || r.Intn(4) == 0 {
			if !s.p.Linktest(mon.Hang) {
				s.fail("no-barrier", "no answer to a linktest")
				return
			}
		}
		evs := s.p.ReceivedFrom(mark)
		mark += len(evs)
		for _, e := range evs {
			if !isAlarm(e.Msg) {
				continue
			}
			expect--
			got, text, set, ok := alarmReport(e.Msg)
			if expect < 0 {
				s.fail("extra", "an S5F1 that nothing asked for: %s", e.Msg)
				return
			}
			a := g.m[id]
			if !ok || got != id || text != a.Text || set != a.Set {
				s.fail("s5f1", "alarm %+v is reported as %s", *a, e.Msg)
				return
			}
			c.Count("S5F1 compared", 1)
		}
		if expect > 0 {
			s.fail("missing", "no S5F1 for alarm %d", id)
			return
		}
		if r.Intn(150) == 0 {
			s.p.Close()
			s.note("connection ended")
			if !s.link() {
				return
			}
			mark = s.p.Mark()
			g.list(nil)
		}
	}
	if !s.isBad() {
		g.list(nil)
	}
	if i == 0 {
		c.Sample(map[string]any{"case": label, "last": s.hist[len(s.hist)-3:]})
	}
}

// alarms gathers the alarms a host fires.
type alarms struct {
	mu  sync.Mutex
	got []gem.AlarmEvent
	bad int
}

func (k *alarms) add(d map[string]interface{}) {
	k.mu.Lock()
	defer k.mu.Unlock()
	a, ok := d["alarm"].(gem.AlarmEvent)
	if !ok {
		k.bad++
		return
	}
	k.got = append(k.got, a)
}

func (k *alarms) n() int { k.mu.Lock(); defer k.mu.Unlock(); return len(k.got) + k.bad }

func (k *alarms) from(i int) []gem.AlarmEvent {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]gem.AlarmEvent(nil), k.got[min(i, len(k.got)):]...)
}

func p28Pair(c *mon.Ctx, label string, i int) {
	s := newGemPair(c, label, nil)
	if s == nil {
		return
	}
	defer s.close()
	var k alarms
	s.H.Events().AlarmReceived.AddCallback(k.add)
	r := s.r
	g := newAlarmTable(s.gemRig)
	if !s.comm() {
		return
	}
	seen := 0
	for n := 0; n < c.N(250, 800) && !s.isBad(); n++ {
		c.Case(fmt.Sprint(label, n), true)
		switch r.Intn(8) {
		case 0:
			g.register(g.p[r.Intn(len(g.p))])
		case 1, 2:
			g.enable(s.H)
		case 3:
			g.list(s.H)
		default:
			id := g.pick()
			sends, ok := g.raise(id, true)
			if !ok {
				return
			}
			if !sends {
				g.list(s.H) // a barrier
				if k.n() != seen {
					s.fail("extra", "the host delivered an alarm nobody reported: %+v", k.from(seen))
				}
				continue
			}
			if !mon.Eventually(mon.Hang, func() bool { return k.n() > seen }) {
				s.fail("missing", "the host did not deliver alarm %d", id)
				return
			}
			got := k.from(seen)
			a := g.m[id]
			if len(got) != 1 || k.bad > 0 || got[0] != (gem.AlarmEvent{ID: id, Text: a.Text, Set: a.Set}) {
				s.fail("pair-alarm", "alarm %+v is delivered as %+v", *a, got)
				return
			}
			seen++
			c.Count("alarms delivered by a library host from a library equipment", 1)
		}
	}
}

// p28Concurrent: each goroutine raises and clears its own alarms, all also a shared one, while the
// host lists: one S5F1 per call, in call order per alarm, and the final list shows the last calls.
func p28Concurrent(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var mu sync.Mutex
	got := map[int][]bool{}
	var total atomic.Int64
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if !isAlarm(m) {
			return gemPeer(p, m)
		}
		id, text, set, ok := alarmReport(m)
		if !ok || text != fmt.Sprint("alarm ", id) {
			s.fail("s5f1", "S5F1 is %s", m)
		}
		mu.Lock()
		got[id] = append(got[id], set)
		mu.Unlock()
		total.Add(1)
		return true
	})
	const workers, own = 6, 3
	for id := 0; id <= workers*own; id++ {
		s.G.RegisterAlarm(gem.Alarm{ID: id, Text: fmt.Sprint("alarm ", id)})
	}
	if !s.comm() {
		return
	}
	want := map[int][]bool{}
	var wg sync.WaitGroup
	var running atomic.Int64
	running.Store(workers)
	per := c.N(60, 250)
	for w := 0; w < workers; w++ {
		wr := rand.New(rand.NewSource(s.r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer running.Add(-1)
			for n := 0; n < per; n++ {
				id := 1 + w*own + wr.Intn(own)
				if wr.Intn(5) == 0 {
					id = 0
				}
				set := wr.Intn(2) == 0
				if err := s.G.RaiseAlarm(id, set); err != nil {
					s.fail("raise-error", "RaiseAlarm(%d, %v): %v", id, set, err)
					return
				}
				mu.Lock()
				want[id] = append(want[id], set)
				mu.Unlock()
				c.Case(fmt.Sprint(label, w, n), true)
			}
		}()
	}
	for running.Load() > 0 && !s.isBad() {
		it, ok := s.ask(5, 5, ref.Lst())
		if !ok {
			break
		}
		l, bad := listItem(it)
		if bad == "" && len(l) != workers*own+1 {
			bad = fmt.Sprintf("%d alarms listed of %d", len(l), workers*own+1)
		}
		if bad != "" {
			s.fail("list", "%s", bad)
		}
		c.Count("lists during concurrent raises", 1)
	}
	wg.Wait()
	if s.isBad() {
		return
	}
	if !mon.Eventually(mon.Hang, func() bool { return total.Load() >= workers*int64(per) }) {
		s.fail("missing", "%d calls gave %d S5F1", workers*per, total.Load())
		return
	}
	it, ok := s.ask(5, 5, ref.Lst())
	if !ok {
		return
	}
	l, bad := listItem(it)
	if bad != "" {
		s.fail("list", "%s", bad)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for id := 0; id <= workers*own; id++ {
		if id == 0 {
			n := 0
			for _, x := range want[0] {
				if x {
					n++
				}
			}
			for _, x := range got[0] {
				if x {
					n--
				}
			}
			if n != 0 || len(got[0]) != len(want[0]) {
				s.fail("shared", "the shared alarm was raised and cleared %v, reported %v", want[0], got[0])
			}
			continue
		}
		if fmt.Sprint(got[id]) != fmt.Sprint(want[id]) {
			s.fail("order", "alarm %d was raised and cleared %v, reported %v", id, want[id], got[id])
			return
		}
		for _, a := range l {
			if w := want[id]; a.ID == id && a.Set != (len(w) > 0 && w[len(w)-1]) {
				s.fail("final", "alarm %d was raised and cleared %v, listed %v", id, w, a.Set)
				return
			}
		}
	}
	c.Count("S5F1 of concurrent raises", int(total.Load()))
}

// p28Asked: a host that asks for the list as soon as it sees S5F1 finds the alarm as reported.
func p28Asked(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	const n = 5
	for id := 0; id < n; id++ {
		s.G.RegisterAlarm(gem.Alarm{ID: id, Text: fmt.Sprint("alarm ", id)})
	}
	type seen struct {
		id  int
		set bool
		ok  bool
	}
	var last seen
	done := make(chan string, 1)
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		switch {
		case isAlarm(m):
			last = seen{}
			last.id, _, last.set, last.ok = alarmReport(m)
			p.Send(ref.DataMsg(m.Session, 5, 5, true, p.NextSys(), ref.Lst()))
		case m.SType == ref.Data && m.Stream() == 5 && m.Function() == 6:
			it, _ := m.Item()
			l, bad := listItem(it)
			for _, a := range l {
				if a.ID == last.id && a.Set != last.set {
					bad = fmt.Sprintf("alarm %d, reported with set %v by S5F1, is listed with set %v", a.ID, last.set, a.Set)
				}
			}
			if !last.ok || len(l) != n {
				bad += fmt.Sprintf(" (report %+v, %d alarms listed)", last, len(l))
			}
			done <- bad
		default:
			return gemPeer(p, m)
		}
		return true
	})
	if !s.comm() {
		return
	}
	state := [n]bool{}
	for k := 0; k < c.N(400, 2000) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		id := r.Intn(n)
		state[id] = !state[id]
		if err := s.G.RaiseAlarm(id, state[id]); err != nil {
			s.fail("raise-error", "RaiseAlarm(%d, %v): %v", id, state[id], err)
			return
		}
		bad := "no S5F6 came"
		mon.Within(mon.Hang, func() { bad = <-done })
		if bad != "" {
			s.fail("asked", "%s", bad)
			return
		}
		c.Count("lists asked for on S5F1", 1)
	}
}

// p28Host: a raw equipment sends S5F1 and lists to a library host.
func p28Host(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply atomic.Pointer[ref.Item]
	var asked atomic.Pointer[ref.Msg]
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 5 && m.W() && m.Function() > 2 {
			asked.Store(&m)
			p.Send(ref.DataMsg(m.Session, 5, m.Function()+1, false, m.Sys, *reply.Load()))
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	var k alarms
	s.G.Events().AlarmReceived.AddCallback(k.add)
	r := s.r
	seen := 0
	for n := 0; n < c.N(200, 800) && !s.isBad(); n++ {
		c.Case(fmt.Sprint(label, n), true)
		switch r.Intn(4) {
		case 0: // lists
			want := map[int]gem.AlarmInfo{}
			l := ref.Item{K: ref.L}
			m := r.Intn(6)
			if r.Intn(25) == 0 {
				m = 600 + r.Intn(400)
			}
			for ; m > 0; m-- {
				id := genAlarmID(r)
				a := gem.AlarmInfo{ID: id, Text: gemText(r, 50), Set: r.Intn(2) == 0, Enabled: r.Intn(2) == 0}
				if _, dup := want[id]; dup {
					continue
				}
				want[id] = a
				w := byte(r.Intn(64))
				if a.Set {
					w |= 0x80
				}
				if a.Enabled {
					w |= 0x40
				}
				l.List = append(l.List, ref.Lst(ref.Bin(w), alarmItem(r, id), ref.Asc(a.Text)))
			}
			alien := r.Intn(6) == 0
			if alien { // cannot be represented: may be refused, may not become another alarm
				l.List = append(l.List, ref.Lst(ref.Bin(0x80), ref.Uint(ref.U8, 1<<63+uint64(r.Intn(3))), ref.Asc("far")))
			}
			reply.Store(&l)
			var got []gem.AlarmInfo
			var err error
			fn := 5
			if r.Intn(2) == 0 {
				got, err = s.G.RequestAlarmList()
			} else {
				fn = 7
				got, err = s.G.RequestEnabledAlarmList()
			}
			s.note("S5F%d answered %s", fn+1, l)
			if err != nil && alien {
				continue
			}
			if err != nil {
				s.fail("host-list", "list %s: %v", cutStr(l.String(), 300), err)
				return
			}
			if m := asked.Load(); m == nil || m.Function() != fn {
				s.fail("host-list", "asked with %v instead of S5F%d", m, fn)
				return
			}
			if d := diffAlarms(got, want); d != "" {
				s.fail("host-list", "list %s: %s", cutStr(l.String(), 300), d)
				return
			}
			c.Count("lists read by a host", 1)
		case 1: // enable
			code := r.Intn(256)
			b := ref.Bin(byte(code))
			reply.Store(&b)
			var ids []int
			m := r.Intn(5)
			if r.Intn(12) == 0 {
				m = 256 + r.Intn(600)
			}
			for ; m > 0; m-- {
				ids = append(ids, genAlarmID(r))
			}
			on := r.Intn(2) == 0
			got, err := s.G.SendEnableAlarm(ids, on)
			s.note("SendEnableAlarm(%v, %v) answered %d", ids, on, code)
			if err != nil || int(got) != code {
				s.fail("host-enable", "SendEnableAlarm(%v, %v) answered %d gives %d, %v", ids, on, code, got, err)
				return
			}
			it, _ := asked.Load().Item()
			bad := it.K != ref.L || len(it.List) != 2 || it.List[0].K != ref.B || len(it.List[0].Words) != 1 || (it.List[0].Words[0] == 128) != on || !on && it.List[0].Words[0] != 0 || it.List[1].K != ref.L || len(it.List[1].List) != len(ids)
			for j := 0; !bad && j < len(ids); j++ {
				x, ok := alarmNum(it.List[1].List[j])
				bad = !ok || x != ids[j]
			}
			if bad {
				s.fail("host-enable", "SendEnableAlarm(%v, %v) is sent as %s", ids, on, it)
				return
			}
		default:
			a := gem.AlarmEvent{ID: genAlarmID(r), Text: gemText(r, 100), Set: r.Intn(2) == 0}
			alcd := byte(0)
			if a.Set {
				alcd = 0x80 | byte(r.Intn(128))
			}
			body := ref.Lst(ref.Bin(alcd), alarmItem(r, a.ID), ref.Asc(a.Text))
			bad := r.Intn(5) == 0
			if bad {
				body = []ref.Item{{}, ref.Lst(), ref.Lst(ref.Bin(alcd)), ref.Lst(ref.Asc("x"), alarmItem(r, a.ID), ref.Asc(a.Text)), ref.Lst(ref.Bin(alcd), ref.Asc("7"), ref.Asc(a.Text)),
					ref.Lst(ref.Bin(alcd), ref.Item{K: ref.U4}, ref.Asc(a.Text)), ref.Lst(ref.Bin(alcd), ref.Uint(ref.U8, 1<<63+1), ref.Asc(a.Text)), ref.Lst(ref.Item{K: ref.B}, alarmItem(r, a.ID), ref.Asc(a.Text)), ref.Asc("alarm")}[r.Intn(9)]
			}
			w := r.Intn(2) == 0
			s.note("S5F1 %s W=%v", cutStr(body.String(), 200), w)
			if w {
				it, ok := s.ask(5, 1, body)
				if !ok {
					return
				}
				if x := ack1(it); bad && x <= 0 || !bad && x != 0 {
					s.fail("s5f2", "S5F1 %s (malformed %v) is answered with %s", cutStr(body.String(), 200), bad, it)
					return
				}
			} else {
				mark := s.p.Mark()
				s.p.Send(ref.DataMsg(s.p.Session, 5, 1, false, s.p.NextSys(), body))
				if !s.p.Linktest(mon.Hang) {
					s.fail("no-barrier", "no answer to a linktest")
					return
				}
				for _, e := range s.p.ReceivedFrom(mark) {
					if e.Msg.SType == ref.Data && e.Msg.Stream() == 5 {
						s.fail("unasked-ack", "S5F1 without W is answered with %s", e.Msg)
					}
				}
			}
			if !bad {
				seen++
			}
			if !mon.Eventually(mon.Hang, func() bool { return k.n() >= seen }) || k.n() != seen || k.bad > 0 {
				s.fail("delivered", "after S5F1 %s (malformed %v) the host has delivered %d alarms, expected %d", cutStr(body.String(), 200), bad, k.n(), seen)
				return
			}
			if bad {
				c.Count("malformed S5F1", 1)
				continue
			}
			if got := k.from(seen - 1)[0]; got != a {
				s.fail("delivered", "S5F1 %s is delivered as %+v", cutStr(body.String(), 200), got)
				return
			}
			c.Count("alarms delivered from a raw equipment", 1)
		}
	}
}
