package props

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P16", Race: true, Run: p16,
		Rule: "one case is one stay in a state with a running timer (connected-not-selected, selected, open select, linktest period, inside a message) on a live connection; non-trivial when it ended by expiry or came after an earlier connection or state of the same endpoint; distinct by timer, role, settings and the history before it",
		Assume: []string{"a timer counts as early only by the harness's own clock, read before the event that starts the timer and after the event it causes",
			"cases that need the machine to keep up (an answer in time, bytes trickling faster than T8) are given up when the harness's own sleeps were late",
			"an unselected endpoint may be dropped at any time after T7; selection counts from the first data message answered"}})
}

type p16Run struct {
	c     *mon.Ctx
	label string
	e     *ep
	hist  []string
	st    stall
	bad   bool
}

func (s *p16Run) fail(p *peer.Peer, key, format string, a ...any) {
	s.bad = true
	var log []string
	if p != nil {
		log = p.Log(30)
	}
	s.c.Violate(key, map[string]any{"history": s.hist, "wire": log}, "%s (%s) after %v: "+format, append([]any{s.label, role(s.e.Active), s.hist}, a...)...)
}

func p16(c *mon.Ctx) {
	type job struct {
		label string
		run   func(c *mon.Ctx, label string, i int)
		i     int
	}
	var jobs []job
	add := func(name string, n int, f func(*mon.Ctx, string, int)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{fmt.Sprintf("%s-%d", name, i), f, i})
		}
	}
	add("hist", c.N(40, 400), p16Hist)
	add("restart", c.N(24, 200), p16Restart)
	add("edge", c.N(40, 400), p16Edge)
	add("edge-next", c.N(16, 120), p16EdgeNext)
	add("t6", c.N(10, 60), p16T6)
	add("linktest", c.N(24, 160), p16Linktest)
	add("t8", c.N(36, 300), p16T8)
	r := c.Rng("order")
	r.Shuffle(len(jobs), func(i, k int) { jobs[i], jobs[k] = jobs[k], jobs[i] })
	mon.Parallel(48, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(j.label)()
		j.run(c, j.label, j.i)
	})
}

func p16New(c *mon.Ctx, label string, active bool, cfg func(*hsms.SecsTimeout)) *p16Run {
	e, err := newEp(active, 5, cfg)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	e.selStatus.Store(-1)
	e.P.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		return dataNode(1, 2, 0, ref.Asc("here")), nil
	})
	return &p16Run{c: c, label: label, e: e}
}

// connect returns the next connection and a time before which none of its timers started.
// notBefore is that time for an active endpoint, which connects by itself.
func (s *p16Run) connect(notBefore time.Time) (*peer.Peer, time.Time) {
	for try := 0; ; try++ {
		t0 := time.Now()
		p, err := s.e.connect(mon.Hang)
		if err != nil {
			s.fail(nil, "no-connection", "no new connection: %v", err)
			return nil, t0
		}
		if s.e.Active {
			if _, ok := p.Await(mon.Hang, func(m ref.Msg) bool { return m.SType == ref.SelectReq }); !ok {
				s.fail(p, "no-select-request", "the active endpoint sent no select.req (closed=%v)", p.Closed())
				return nil, t0
			}
			return p, notBefore
		}
		if p.Linktest(mon.Hang) {
			return p, t0
		}
		if !p.WaitClosed(time.Second) || try > 50 {
			s.fail(p, "linktest-unanswered", "no linktest response on a new connection (closed=%v)", p.Closed())
			return nil, t0
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// sel selects and confirms it with a data message; false when the connection was dropped first.
func (s *p16Run) sel(p *peer.Peer) bool {
	if m, ok := s.openSelect(p); ok {
		p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys))
	} else if err := p.Select(mon.Hang); err != nil {
		return false
	}
	_, err := p.Request(mon.Hang, 1, 1, ref.Item{})
	return err == nil
}

// openSelect is the endpoint's own unanswered select.req on this connection.
func (s *p16Run) openSelect(p *peer.Peer) (m ref.Msg, ok bool) {
	if !s.e.Active {
		return
	}
	for _, ev := range p.Received() {
		if ev.Dir == "rx" && ev.Msg.SType == ref.SelectReq {
			m, ok = ev.Msg, true
		}
	}
	for _, ev := range p.Sent() {
		if ev.Msg.SType == ref.SelectRsp && ev.Msg.Sys == m.Sys {
			return m, false
		}
	}
	return
}

// closedAt is when the harness saw the connection end.
func closedAt(p *peer.Peer) (time.Time, bool) {
	for _, ev := range p.Received() {
		if ev.Dir == "closed" {
			return ev.Time, true
		}
	}
	return time.Time{}, false
}

// early reports a drop before the timer started not before t0 could expire.
func (s *p16Run) early(p *peer.Peer, t0 time.Time, d time.Duration, what string) bool {
	at, ok := closedAt(p)
	if ok && at.Sub(t0) < d {
		s.fail(p, "early-"+what, "the connection was dropped after %v, %s is %v", at.Sub(t0), what, d)
		return true
	}
	return false
}

func (s *p16Run) settled() {
	if !s.e.Active && !mon.Eventually(mon.Hang, func() bool { return s.e.P.CurrentState() == hsms.StateNotConnected }) {
		s.fail(nil, "state-after-drop", "state is still %s after the connection was dropped", s.e.P.CurrentState())
	}
}

func p16Hist(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	t7 := time.Second * time.Duration(1+r.Intn(10)/9)
	lt := []int{0, 0, 1, 2}[r.Intn(4)]
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) {
		t.SetT7NotSelectTimeout(int(t7 / time.Second))
		t.SetLinktest(lt)
	})
	if s == nil {
		return
	}
	defer s.e.close()
	if r.Intn(2) == 0 {
		s.e.P.SetLogger(&perturb{r: rand.New(rand.NewSource(r.Int63())), max: 3 * time.Millisecond})
	}
	since := time.Now()
	s.e.P.Enable()
	for n := c.N(3, 5); n > 0 && !s.bad; n-- {
		p, entry := s.connect(since)
		if p == nil {
			return
		}
		selected := false
		s.hist = append(s.hist, "connected")
		ended := ""
		for k := 1 + r.Intn(5); k > 0 && !s.bad && ended == ""; k-- {
			act := []string{"wait", "wait", "select", "select", "deselect", "linktest", "data", "expire", "drop"}[r.Intn(9)]
			if selected && act == "expire" {
				act = "outlast"
			}
			if act == "select" && selected || act == "deselect" && !selected {
				continue
			}
			s.hist = append(s.hist, act)
			switch act {
			case "wait":
				time.Sleep(time.Duration(float64(t7) * []float64{0.2, 0.5, 0.8, 0.95}[r.Intn(4)]))
			case "outlast":
				time.Sleep(t7 + t7/3)
			case "select":
				selected = s.sel(p)
			case "deselect":
				t := time.Now()
				p.Send(ref.Ctrl(ref.DeselectReq, s.e.Session, p.NextSys()))
				if !p.Linktest(mon.Hang) && !p.Closed() {
					s.fail(p, "linktest-unanswered", "after deselect")
				}
				selected, entry = false, t
			case "linktest":
				p.Linktest(mon.Hang)
			case "data":
				p.Send(ref.DataMsg(s.e.Session, 1, 1, true, p.NextSys(), ref.Item{}))
			case "expire":
				if !p.WaitClosed(mon.Hang) {
					s.fail(p, "t7-not-fired", "connected and not selected for %v, T7 is %v: still connected", time.Since(entry), t7)
				}
			case "drop":
				ended, since = act, time.Now()
				if r.Intn(2) == 0 {
					p.Reset()
				} else {
					p.Close()
				}
			}
			if s.bad || ended != "" {
				break
			}
			if p.Closed() {
				if selected {
					s.fail(p, "selected-dropped", "a selected connection was dropped")
					break
				}
				if s.early(p, entry, t7, "T7") {
					break
				}
				ended = "expired"
				since = entry.Add(t7)
				if at, _ := closedAt(p); at.Before(since) {
					since = at
				}
			} else if selected && !s.e.selected() {
				s.fail(p, "selected-state", "the selected connection lives and answered data, but the state is %s", s.e.P.CurrentState())
			}
		}
		if s.bad {
			return
		}
		if ended == "" {
			if selected { // T7 of the time before must not come back
				time.Sleep(t7 + t7/5)
				if p.Closed() || !s.e.selected() {
					s.fail(p, "selected-dropped", "a selected connection was dropped (state %s)", s.e.P.CurrentState())
					return
				}
				c.Count("selected_outlasted_T7", 1)
			}
			since = time.Now()
			p.Close()
			ended = "closed"
		}
		s.settled()
		s.hist = append(s.hist, ended)
		c.Count("connection_"+ended, 1)
		c.Case(fmt.Sprintf("t7 %s %v %d %v", role(active), t7, lt, s.hist), ended == "expired" || len(s.hist) > 4)
	}
	if i < 3 {
		c.Sample(map[string]any{"case": label, "role": role(active), "T7": t7.String(), "history": s.hist})
	}
}

// p16Restart enters and leaves the selected state a few times within one T7: the timer runs from the
// last deselect, and it does run.
func p16Restart(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	const t7 = time.Second
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) { t.SetT7NotSelectTimeout(1) })
	if s == nil {
		return
	}
	defer s.e.close()
	if r.Intn(2) == 0 {
		s.e.P.SetLogger(&perturb{r: rand.New(rand.NewSource(r.Int63())), max: 3 * time.Millisecond})
	}
	since := time.Now()
	s.e.P.Enable()
	p, entry := s.connect(since)
	if p == nil {
		return
	}
	nap := func() {
		d := time.Duration(r.Intn(600)) * time.Millisecond
		s.hist = append(s.hist, d.String())
		time.Sleep(d)
	}
	selected := false
	for n := 1 + r.Intn(3); n > 0; n-- {
		nap()
		s.hist = append(s.hist, "select")
		if !s.sel(p) {
			if p.WaitClosed(mon.Hang) {
				s.early(p, entry, t7, "T7")
			}
			return
		}
		if n == 1 && i%4 == 0 {
			selected = true
			break
		}
		nap()
		s.hist = append(s.hist, "deselect")
		entry = time.Now()
		p.Send(ref.Ctrl(ref.DeselectReq, s.e.Session, p.NextSys()))
		if !p.Linktest(mon.Hang) {
			if !p.Closed() {
				s.fail(p, "linktest-unanswered", "after deselect")
			} else {
				s.early(p, entry, t7, "T7")
			}
			return
		}
	}
	c.Case(fmt.Sprintf("restart %s %v", role(active), s.hist), true)
	if selected {
		time.Sleep(t7 + t7/3)
		if p.Closed() || !s.e.selected() {
			s.fail(p, "selected-dropped", "a selected connection was dropped (state %s)", s.e.P.CurrentState())
		}
		c.Count("selected_outlasted_T7", 1)
		return
	}
	if !p.WaitClosed(mon.Hang) {
		s.fail(p, "t7-not-fired", "deselected %v ago, T7 is %v: still connected", time.Since(entry), t7)
		return
	}
	s.early(p, entry, t7, "T7")
	c.Count("expired_after_deselect", 1)
}

// p16Edge selects as T7 expires. Once data has been answered the connection is selected and stays.
func p16Edge(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) { t.SetT7NotSelectTimeout(1) })
	if s == nil {
		return
	}
	defer s.e.close()
	at := []string{"T7 timeout", "NOT_CONNECTED", "", ""}[i/2%4]
	slow := at != ""
	lg := &perturb{r: rand.New(rand.NewSource(r.Int63()))}
	if slow {
		lg.at = map[string]time.Duration{at: 400 * time.Millisecond}
	}
	s.e.P.SetLogger(lg)
	since := time.Now()
	s.e.P.Enable()
	p, entry := s.connect(since)
	if p == nil {
		return
	}
	if slow {
		mon.Eventually(mon.Hang, func() bool { return lg.hits.Load() > 0 || p.Closed() })
	} else {
		time.Sleep(time.Until(entry.Add(time.Second + time.Duration(r.Intn(9000)-3000)*time.Microsecond)))
	}
	s.hist = append(s.hist, "select as T7 expires")
	ok := s.sel(p)
	s.hist = append(s.hist, fmt.Sprintf("data answered: %v", ok))
	c.Case(fmt.Sprintf("edge %s %s %d %v", role(active), at, i, ok), true)
	if !ok {
		c.Count("edge_dropped", 1)
		if !p.WaitClosed(mon.Hang) {
			s.fail(p, "half-dropped", "data is not answered, yet the connection lives; state %s", s.e.P.CurrentState())
			return
		}
		s.early(p, entry, time.Second, "T7")
		return
	}
	c.Count("edge_selected", 1)
	time.Sleep(time.Duration(700+r.Intn(700)) * time.Millisecond)
	if p.Closed() || !s.e.selected() || !s.e.P.Connected() || !p.Linktest(mon.Hang) {
		s.fail(p, "selected-dropped", "the endpoint answered data, so was selected; then it dropped the connection (closed=%v, state %s, connected=%v)", p.Closed(), s.e.P.CurrentState(), s.e.P.Connected())
	}
}

// p16EdgeNext ends the connection as T7 expires and connects again: the next connection has its own T7.
func p16EdgeNext(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) { t.SetT7NotSelectTimeout(1) })
	if s == nil {
		return
	}
	defer s.e.close()
	at := []string{"T7 timeout", "NOT_CONNECTED", "", ""}[i/2%4]
	slow := at != ""
	lg := &perturb{r: rand.New(rand.NewSource(r.Int63()))}
	if slow {
		lg.at = map[string]time.Duration{at: 400 * time.Millisecond}
	}
	s.e.P.SetLogger(lg)
	since := time.Now()
	s.e.P.Enable()
	p, entry := s.connect(since)
	if p == nil {
		return
	}
	if slow {
		mon.Eventually(mon.Hang, func() bool { return lg.hits.Load() > 0 || p.Closed() })
	} else {
		time.Sleep(time.Until(entry.Add(time.Second + time.Duration(r.Intn(6000)-4000)*time.Microsecond)))
	}
	since = time.Now()
	if t := entry.Add(time.Second); t.Before(since) {
		since = t
	}
	p.Reset()
	s.hist = append(s.hist, "connection lost as T7 expires")
	q, entry := s.connect(since)
	if q == nil {
		return
	}
	s.hist = append(s.hist, "connected again")
	sel := r.Intn(2) == 0
	c.Case(fmt.Sprintf("edge-next %s %s %v %d", role(active), at, sel, i), true)
	if sel {
		if !s.sel(q) {
			s.hist = append(s.hist, "select")
			if !q.WaitClosed(mon.Hang) {
				s.fail(q, "half-dropped", "data is not answered, yet the connection lives; state %s", s.e.P.CurrentState())
				return
			}
			s.early(q, entry, time.Second, "T7")
			return
		}
		s.hist = append(s.hist, "selected")
		time.Sleep(1200 * time.Millisecond)
		if q.Closed() || !s.e.selected() || !q.Linktest(mon.Hang) {
			s.fail(q, "selected-dropped", "the next connection was selected, then dropped (closed=%v, state %s)", q.Closed(), s.e.P.CurrentState())
		}
		return
	}
	if !q.WaitClosed(mon.Hang) {
		s.fail(q, "t7-not-fired", "connected and not selected for %v, T7 is 1 s: still connected", time.Since(entry))
		return
	}
	s.early(q, entry, time.Second, "T7")
}

func p16T6(c *mon.Ctx, label string, i int) {
	t6, t7, answer := 1, 5, 3500*time.Millisecond
	kind := i % 3
	switch kind {
	case 1: // answered in time
		t6, t7, answer = 3, 6, time.Second
	case 2: // never answered
		t6, t7 = 1, 2
	}
	s := p16New(c, label, true, func(t *hsms.SecsTimeout) { t.SetT6ControlTransTimeout(t6); t.SetT7NotSelectTimeout(t7) })
	if s == nil {
		return
	}
	defer s.e.close()
	since := time.Now()
	s.e.P.Enable()
	p, entry := s.connect(since)
	if p == nil {
		return
	}
	m, _ := s.openSelect(p)
	c.Case(fmt.Sprintf("t6 %d %d", kind, i), true)
	c.Count([]string{"select_answered_after_T6", "select_answered_in_time", "select_never_answered"}[kind], 1)
	if kind < 2 {
		s.st.sleep(answer)
		s.hist = append(s.hist, fmt.Sprintf("select.rsp after %v, T6 is %d s", answer, t6))
		if p.Closed() {
			s.early(p, entry, time.Duration(min(t6, t7))*time.Second, "T6")
			if kind == 1 && s.st.late() < 500*time.Millisecond {
				s.fail(p, "early-T6", "the select request was given up before T6")
			}
			return
		}
		p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys))
		if !p.Linktest(mon.Hang) {
			if kind == 1 && s.st.late() < 500*time.Millisecond {
				s.fail(p, "select-dropped", "a select.rsp in time was followed by a drop")
			}
			return
		}
		if late := s.st.late() > 500*time.Millisecond; late {
			c.Inconclusive("%s: machine too slow", label)
			return
		}
		if sel := s.e.selected(); sel != (kind == 1) {
			s.fail(p, "select-after-T6", "state is %s", s.e.P.CurrentState())
			return
		}
		if kind == 1 {
			s.st.sleep(time.Duration(t7-1) * time.Second)
			if p.Closed() || !s.e.selected() {
				s.fail(p, "selected-dropped", "the selected connection was dropped; state %s", s.e.P.CurrentState())
			}
			return
		}
	}
	if !p.WaitClosed(mon.Hang) {
		s.fail(p, "unselected-kept", "the select request was never answered in time, the connection is still there after %v (T6 %d, T7 %d)", time.Since(entry), t6, t7)
		return
	}
	s.early(p, entry, time.Duration(t6)*time.Second, "T6")
	q, _ := s.connect(entry.Add(time.Duration(t6) * time.Second))
	if q == nil {
		return
	}
	n, _ := s.openSelect(q)
	if n.Sys == m.Sys {
		s.fail(q, "select-reused", "the next select request reuses the system bytes of the open one")
	}
	if !s.sel(q) {
		s.fail(q, "select-next", "the next connection could not be selected (closed=%v, state %s)", q.Closed(), s.e.P.CurrentState())
	}
}

func p16Linktest(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	iv := []int{1, 1, 2, 0, 1, 2}[i/2%6]
	interval := time.Duration(iv) * time.Second
	answer := i%5 != 4
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) {
		t.SetLinktest(iv)
		t.SetT6ControlTransTimeout(1)
	})
	if s == nil {
		return
	}
	defer s.e.close()
	s.e.selStatus.Store(0)
	s.e.noAutoLink = !answer
	if active {
		s.e.L.Close()
		if err := s.e.listen(); err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
	}
	since := time.Now()
	s.e.P.Enable()
	isLT := func(m ref.Msg) bool { return m.SType == ref.LinktestReq }
	for n := 2 + r.Intn(3); n >= 0 && !s.bad; n-- {
		p, t0 := s.connect(since)
		if p == nil {
			return
		}
		s.hist = append(s.hist, "connected")
		if !active && r.Intn(2) == 0 {
			s.sel(p)
			s.hist = append(s.hist, "selected")
		}
		if n > 0 {
			time.Sleep(time.Duration(50+r.Intn(1300)) * time.Millisecond)
		} else if interval == 0 {
			time.Sleep(2500 * time.Millisecond)
		} else {
			want := 3
			if !p.WaitFor(mon.Hang, want, isLT) {
				s.fail(p, "linktest-missing", "fewer than %d linktest requests in %v, interval %v (closed=%v)", want, time.Since(t0), interval, p.Closed())
				return
			}
		}
		k := 0
		seen := map[uint32]bool{}
		for _, ev := range p.Received() {
			if ev.Dir != "rx" || !isLT(ev.Msg) {
				continue
			}
			k++
			if interval == 0 {
				s.fail(p, "linktest-off", "a linktest request came although the linktest is off")
				break
			}
			if d := ev.Time.Sub(t0); d < time.Duration(k-1)*interval {
				s.fail(p, "linktest-rate", "linktest request number %d came %v after the connection, interval %v", k, d, interval)
				break
			}
			if m := ev.Msg; seen[m.Sys] || m.Session != 0xFFFF || m.Byte2 != 0 || m.Byte3 != 0 || len(m.Text) > 0 {
				s.fail(p, "linktest-form", "linktest request %s (repeated: %v)", m, seen[m.Sys])
				break
			}
			seen[ev.Msg.Sys] = true
		}
		if answer && p.Closed() {
			s.fail(p, "linktest-dropped", "the connection ended although every linktest was answered")
		}
		c.Count("linktest_requests", k)
		end := []string{"fin", "rst", "separate"}[r.Intn(3)]
		s.hist = append(s.hist, end)
		c.Case(fmt.Sprintf("linktest %s %d answer=%v %v %d", role(active), iv, answer, s.hist, i), len(s.hist) > 2)
		since = time.Now()
		switch end {
		case "fin":
			p.Close()
		case "rst":
			p.Reset()
		default:
			p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, p.NextSys()))
			if !p.WaitClosed(2 * time.Second) { // may be ignored while not selected
				p.Close()
			}
		}
		s.settled()
	}
}

func p16T8(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	active := i%2 == 0
	kind := []string{"stall", "stall", "stall", "idle", "trickle", "off"}[i/2%6]
	t8 := 1
	if kind == "off" {
		t8 = 0
	}
	s := p16New(c, label, active, func(t *hsms.SecsTimeout) { t.SetT8NetworkIntercharTimeout(t8) })
	if s == nil {
		return
	}
	defer s.e.close()
	s.e.P.Enable()
	p, _ := s.connect(time.Now())
	if p == nil {
		return
	}
	if !s.sel(p) {
		s.fail(p, "not-selected", "cannot select (closed=%v)", p.Closed())
		return
	}
	// an earlier message, so that the stalled one is not the first
	for k := r.Intn(3); k > 0; k-- {
		if _, err := p.Request(mon.Hang, 1, 1, ref.Item{}); err != nil {
			s.fail(p, "no-reply", "%v", err)
			return
		}
	}
	sys := p.NextSys()
	m := ref.DataMsg(s.e.Session, 1, 1, true, sys, ref.Asc(string(make([]byte, r.Intn(40)))))
	switch r.Intn(4) { // a message of nothing but its header
	case 0:
		m = ref.DataMsg(s.e.Session, 1, 1, true, sys, ref.Item{})
	case 1:
		m = ref.Ctrl(ref.LinktestReq, 0xFFFF, sys)
	}
	b := m.Bytes()
	cut := []int{1, 2, 3, 4, 5, 13, 14, len(b) - 1, 1 + r.Intn(len(b)-1)}[r.Intn(9)]
	if cut >= len(b) {
		cut = len(b) - 1
	}
	answered := func() bool {
		_, ok := p.Await(mon.Hang, func(a ref.Msg) bool { return (a.SType == ref.Data || a.SType == ref.LinktestRsp) && a.Sys == sys })
		return ok
	}
	s.hist = append(s.hist, fmt.Sprintf("%s at byte %d of %d", kind, cut, len(b)))
	c.Case(fmt.Sprintf("t8 %s %s %d/%d", role(active), kind, cut, len(b)), true)
	c.Count("t8_"+kind, 1)
	switch kind {
	case "stall":
		pre := []byte{}
		if r.Intn(3) == 0 { // right behind a complete message, in the same segment
			pre = ref.Ctrl(ref.LinktestReq, 0xFFFF, p.NextSys()).Bytes()
		}
		t := time.Now()
		p.SendRaw(append(pre, b[:cut]...), m)
		if !p.WaitClosed(mon.Hang) {
			s.fail(p, "t8-not-fired", "the message stalled for %v, T8 is %d s: still connected", time.Since(t), t8)
			return
		}
		s.early(p, t, time.Duration(t8)*time.Second, "T8")
		s.settled()
		if s.bad {
			return
		}
		q, _ := s.connect(t)
		if q != nil && !s.sel(q) {
			s.fail(q, "not-usable", "the next connection cannot be used (closed=%v)", q.Closed())
		}
	case "idle":
		time.Sleep(time.Duration(2000+r.Intn(1000)) * time.Millisecond)
		p.SendRaw(b, m)
		if !answered() || p.Closed() {
			s.fail(p, "idle-dropped", "an idle connection is gone (closed=%v)", p.Closed())
			return
		}
		time.Sleep(1500 * time.Millisecond)
		if !p.Linktest(mon.Hang) {
			s.fail(p, "idle-dropped", "an idle connection is gone (closed=%v)", p.Closed())
		}
	case "trickle":
		worst := time.Duration(0)
		last := time.Now()
		for at := 0; at < len(b); {
			n := 1 + r.Intn(1+len(b)/6)
			if at+n > len(b) {
				n = len(b) - at
			}
			p.SendRaw(b[at:at+n], m)
			at += n
			if d := time.Since(last); d > worst {
				worst = d
			}
			last = time.Now()
			if at < len(b) {
				time.Sleep(300 * time.Millisecond)
			}
		}
		if worst > 600*time.Millisecond {
			c.Inconclusive("%s: machine too slow", label)
		} else if !answered() {
			s.fail(p, "trickle-dropped", "a message arriving in pieces at most %v apart was not processed, T8 is %d s (closed=%v)", worst, t8, p.Closed())
		}
	case "off":
		p.SendRaw(b[:cut], m)
		time.Sleep(2 * time.Second)
		p.SendRaw(b[cut:], m)
		if !answered() {
			s.fail(p, "t8-off", "T8 is off, yet a message interrupted for 2 s was not processed (closed=%v)", p.Closed())
		}
	}
}
