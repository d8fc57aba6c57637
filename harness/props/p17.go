package props

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P17", Race: true, Run: p17,
		Rule: "one case is one loss, refusal or second connection in the history of a live endpoint followed by what it does next; non-trivial when it is not the first of its endpoint or hits a conversation in progress; distinct by role, kind, moment, settings and history",
		Assume: []string{"an attempt is early only if less than the configured time passed between the event before it and its arrival, by the harness's clock",
			"no further attempt means none within three seconds, when the next one would have been due after one",
			"a passive endpoint reopens its port after every connection: connections made meanwhile may be refused or reset",
			"automatic reconnection concerns the active role; a passive endpoint goes on listening"}})
}

type p17Run struct {
	c     *mon.Ctx
	label string
	e     *ep
	r     *rand.Rand
	hist  []string
	bad   bool
	slow  atomic.Int32 // ms a handler takes
	echo  atomic.Int64
}

func (s *p17Run) fail(p *peer.Peer, key, format string, a ...any) {
	s.bad = true
	var log []string
	if p != nil {
		log = p.Log(20)
	}
	s.c.Violate(key, map[string]any{"history": s.hist, "wire": log}, "%s (%s) after %v: "+format, append([]any{s.label, role(s.e.Active), s.hist}, a...)...)
}

func p17(c *mon.Ctx) {
	type job struct {
		label string
		run   func(c *mon.Ctx, label string, i int)
		i     int
	}
	var jobs []job
	add := func(name string, n int, f func(*mon.Ctx, string, int)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{fmt.Sprintf("%s-%d", name, i), f, i})
		}
	}
	add("refused", c.N(32, 160), p17Refused)
	add("disabled", c.N(10, 60), p17Disabled)
	add("faults", c.N(40, 400), p17Faults)
	mon.Parallel(40, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(j.label)()
		j.run(c, j.label, j.i)
	})
}

func p17New(c *mon.Ctx, label string, active bool, cfg func(*hsms.SecsTimeout)) *p17Run {
	e, err := newEp(active, 9, cfg)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	e.selStatus.Store(-1)
	s := &p17Run{c: c, label: label, e: e, r: c.Rng(label)}
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 2 && m.Function() == 17 {
			p.Send(ref.DataMsg(m.Session, 2, 18, false, m.Sys, ref.Asc("now")))
			return true
		}
		return false
	})
	e.P.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		if d := s.slow.Load(); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		return dataNode(1, 2, 0, ref.Asc("here")), nil
	})
	return s
}

// usable checks that the (selected) connection carries data in both directions.
func (s *p17Run) usable(p *peer.Peer) bool {
	if _, err := p.Request(mon.Hang, 1, 1, ref.Item{}); err != nil {
		s.fail(p, "not-answering", "selected, but a request is not answered: %v", err)
		return false
	}
	var got *ast.DataMessage
	var err error
	if !mon.Within(mon.Hang, func() { got, err = s.e.P.SendAndWait(dataNode(2, 17, 1, ref.Item{})) }) || err != nil {
		s.fail(p, "not-sending", "selected, but SendAndWait gives %v, %v", got, err)
		return false
	}
	return true
}

// next gets the endpoint selected on a new connection.
func (s *p17Run) next() *peer.Peer {
	for try := 0; ; try++ {
		p, err := s.e.connect(mon.Hang)
		if err != nil {
			s.fail(nil, "not-coming-back", "%v (state %s, connected=%v)", err, s.e.P.CurrentState(), s.e.P.Connected())
			return nil
		}
		if s.e.Active {
			m, ok := p.Await(mon.Hang, func(m ref.Msg) bool { return m.SType == ref.SelectReq })
			if !ok {
				s.fail(p, "no-select-request", "the active endpoint sent no select.req (closed=%v, state %s) \n%s", p.Closed(), s.e.P.CurrentState(), mon.LibStacks())
				return nil
			}
			p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys))
		} else {
			err = p.Select(mon.Hang)
		}
		if err == nil && mon.Eventually(mon.Hang, func() bool { return s.e.selected() || p.Closed() }) && s.e.selected() && !p.Closed() {
			return p
		}
		// a connection made while a passive endpoint was reopening its port is reset
		if s.e.Active || try > 50 || !p.WaitClosed(time.Second) {
			s.fail(p, "not-coming-back", "cannot select: %v (state %s, connected=%v, closed=%v)", err, s.e.P.CurrentState(), s.e.P.Connected(), p.Closed())
			return nil
		}
	}
}

var p17FaultKinds = []string{"at-once", "select-open", "idle", "idle", "separate", "deselected", "mid-frame", "in-handler", "requests-open", "flood", "garbage", "half-close", "unread", "second-connection"}

func p17Faults(c *mon.Ctx, label string, i int) {
	active := i%2 == 0
	t5 := 0
	if i%8 == 0 {
		t5 = 1
	}
	s := p17New(c, label, active, func(t *hsms.SecsTimeout) {
		t.SetT5ConnSeparateTimeout(t5)
		t.SetT3ReplyTimeout(20)
		t.SetMaxReconnectAttempts([]int{0, 0, 5}[i%3])
	})
	if s == nil {
		return
	}
	r := s.r
	defer s.e.close()
	if r.Intn(2) == 0 {
		s.e.P.SetLogger(&perturb{r: rand.New(rand.NewSource(r.Int63())), max: 4 * time.Millisecond})
	}
	s.e.P.Enable()
	var wg sync.WaitGroup
	stop := make(chan struct{})
	defer wg.Wait()
	defer close(stop)
	if i%4 < 2 { // traffic of its own all the time
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(2 * time.Millisecond):
					s.e.P.SendDataMessage(dataNode(6, 11, 0, ref.Uint(4, 1)))
				}
			}
		}()
	}
	var lost time.Time // when the connection before was ended, at the earliest
	var prev *peer.Peer
	for n := c.N(6, 12); n > 0 && !s.bad; n-- {
		var p *peer.Peer
		var err error
		kind := p17FaultKinds[r.Intn(len(p17FaultKinds))]
		if kind == "at-once" || kind == "select-open" {
			p, err = s.e.connect(mon.Hang)
			if err != nil {
				s.fail(nil, "not-coming-back", "%v", err)
				return
			}
		} else {
			if p = s.next(); p == nil {
				return
			}
		}
		if active && !lost.IsZero() {
			if d := time.Since(lost); d < time.Duration(t5)*time.Second {
				s.fail(p, "early-T5", "connected again %v after the loss, T5 is %d s", d, t5)
				return
			}
		}
		if prev != nil && active && !prev.WaitClosed(mon.Hang) {
			s.fail(p, "two-connections", "a new connection, and the one before is still open")
			return
		}
		if s.e.selected() && kind != "at-once" && kind != "select-open" && !s.usable(p) {
			return
		}
		s.hist = append(s.hist, kind)
		rst := r.Intn(2) == 0
		end := func() {
			if rst {
				p.Reset()
			} else {
				p.Close()
			}
		}
		lost = time.Now()
		switch kind {
		case "at-once", "idle":
			end()
		case "select-open":
			if active {
				p.Await(mon.Hang, func(m ref.Msg) bool { return m.SType == ref.SelectReq })
				if r.Intn(2) == 0 {
					for _, ev := range p.Received() {
						if ev.Msg.SType == ref.SelectReq && ev.Dir == "rx" {
							p.Send(ref.Ctrl(ref.SelectRsp, ev.Msg.Session, ev.Msg.Sys))
						}
					}
				}
			} else {
				p.Send(ref.Ctrl(ref.SelectReq, s.e.Session, p.NextSys()))
			}
			end()
		case "separate":
			p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, p.NextSys()))
			if !p.WaitClosed(mon.Hang) {
				s.fail(p, "separate-kept", "separate.req did not end the connection")
			}
		case "deselected":
			p.Send(ref.Ctrl(ref.DeselectReq, s.e.Session, p.NextSys()))
			if r.Intn(2) == 0 {
				p.Linktest(mon.Hang)
			}
			end()
		case "mid-frame":
			b := ref.DataMsg(s.e.Session, 1, 1, true, p.NextSys(), ref.Asc("partial")).Bytes()
			p.SendRaw(b[:1+r.Intn(len(b)-1)], ref.Msg{})
			end()
		case "in-handler":
			s.slow.Store(int32(1 + r.Intn(60)))
			p.Send(ref.DataMsg(s.e.Session, 1, 1, true, p.NextSys(), ref.Item{}))
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			end()
			s.slow.Store(0)
		case "requests-open":
			for k := 1 + r.Intn(4); k > 0; k-- {
				wg.Add(1)
				go func() { defer wg.Done(); s.e.P.SendAndWait(dataNode(2, 25, 1, ref.Item{})) }()
			}
			p.WaitFor(time.Second, 1, func(m ref.Msg) bool { return m.Stream() == 2 && m.Function() == 25 })
			end()
		case "flood":
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 300; k++ {
					if s.e.P.SendDataMessage(dataNode(6, 11, 0, ref.Asc("flood"))) != nil {
						return
					}
				}
			}()
			time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			end()
		case "garbage":
			b := make([]byte, 14+r.Intn(60))
			r.Read(b)
			b[0], b[1], b[2], b[3] = 0, 0, 0, byte(r.Intn(10)) // too short for a header
			p.SendRaw(b, ref.Msg{})
			if !p.WaitClosed(mon.Hang) {
				s.fail(p, "garbage-kept", "a frame shorter than a header did not end the connection: %x", b)
			}
		case "half-close":
			p.Conn.(*net.TCPConn).CloseWrite()
			if !p.WaitClosed(mon.Hang) {
				s.fail(p, "half-open", "the peer closed its side, the endpoint did not")
			}
		case "unread":
			wg.Add(1)
			go func() {
				defer wg.Done()
				big := ref.Asc(string(make([]byte, 1<<18)))
				for k := 0; k < 4; k++ {
					if s.e.P.SendDataMessage(dataNode(6, 11, 0, big)) != nil {
						return
					}
				}
			}()
			time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			end()
		case "second-connection":
			if active {
				end()
				break
			}
			if q, err := net.DialTimeout("tcp", s.e.addr(), 2*time.Second); err == nil {
				o := peer.New(q)
				o.Send(ref.Ctrl(ref.LinktestReq, 0xFFFF, 1))
				o.Send(ref.Ctrl(ref.SelectReq, s.e.Session, 2))
				o.WaitFor(200*time.Millisecond, 1, func(ref.Msg) bool { return true })
				for _, ev := range o.Received() {
					if ev.Dir == "rx" {
						s.fail(o, "two-connections", "a second connection was served while the first one lived: %s", ev.Msg)
					}
				}
				if s.bad || p.Closed() || !s.usable(p) {
					if !s.bad {
						s.fail(p, "second-kills-first", "a second connection ended the first one")
					}
				}
				o.Close()
			}
			end()
		}
		if s.bad {
			return
		}
		c.Count("fault_"+kind, 1)
		c.Case(fmt.Sprintf("fault %s %d %v rst=%v", role(active), t5, s.hist, rst), true)
		prev = p
		// the peer is away for a while
		if active && r.Intn(5) == 0 {
			s.e.L.Close()
			time.Sleep(time.Duration(r.Intn(1200)) * time.Millisecond)
			if err := s.e.listen(); err != nil {
				c.Inconclusive("%s: %v", label, err)
				return
			}
			s.hist = append(s.hist, "(away)")
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
	}
	if s.bad {
		return
	}
	if p := s.next(); p != nil {
		s.usable(p)
	}
	if i < 3 {
		c.Sample(map[string]any{"case": label, "role": role(active), "T5": t5, "faults": s.hist})
	}
}

// p17Refused keeps an active endpoint from connecting and watches when, and whether, it comes.
func p17Refused(c *mon.Ctx, label string, i int) {
	kind := []string{"limit", "limit-kept", "limit-again", "unlimited", "backoff", "off-initial", "off-loss", "backoff"}[i%8]
	base, max, limit := 1, 1, 2
	auto := true
	switch kind {
	case "unlimited":
		limit = 0
	case "backoff":
		base, max, limit = 1, []int{2, 3}[i/16%2], 0
		if i%8 == 7 {
			base, max = 2, 3
		}
	case "off-initial", "off-loss":
		auto, limit = false, []int{0, 3}[i/8%2]
	}
	s := p17New(c, label, true, func(t *hsms.SecsTimeout) {
		t.SetReconnectBackoffBase(base)
		t.SetReconnectBackoffMax(max)
		t.SetMaxReconnectAttempts(limit)
		t.SetAutoReconnect(auto)
	})
	if s == nil {
		return
	}
	defer s.e.close()
	var st stall
	comes := func(d time.Duration) *peer.Peer {
		if p, ok := s.e.L.Accept(d); ok {
			return p
		}
		return nil
	}
	listen := func() bool {
		if err := s.e.listen(); err != nil {
			c.Inconclusive("%s: %v", label, err)
			return false
		}
		return true
	}
	c.Count("refused_"+kind, 1)
	c.Case(fmt.Sprintf("refused %s base=%d max=%d limit=%d %d", kind, base, max, limit, i), true)
	switch kind {
	case "limit": // attempts at 0, 1 and 2 s, then no more
		s.e.L.Close()
		s.e.P.Enable()
		st.sleep(5500 * time.Millisecond)
		if !listen() {
			return
		}
		if p := comes(3 * time.Second); p != nil && st.late() < time.Second {
			s.fail(p, "limit-exceeded", "an attempt more than %v after the first, limit %d, back-off 1 s", 5500*time.Millisecond, limit)
			return
		}
		s.e.L.Close() // once enabled again, it makes as many attempts again
		s.e.P.Disable()
		s.e.P.Enable()
		if i/8%2 == 0 {
			time.Sleep(500 * time.Millisecond)
		}
		if !listen() {
			return
		}
		if p := s.next(); p != nil {
			s.usable(p)
		}
	case "limit-again": // failures before it was disabled do not count towards the limit
		s.e.L.Close()
		s.e.P.Enable()
		time.Sleep(1500 * time.Millisecond) // attempts at 0 and 1 s
		s.e.P.Disable()
		if i/8%2 == 0 {
			time.Sleep(1500 * time.Millisecond) // the thread has noticed
		}
		s.e.P.Enable()
		time.Sleep(1200 * time.Millisecond)
		if !listen() {
			return
		}
		if p := s.next(); p != nil {
			s.usable(p)
		}
	case "limit-kept": // fewer failures than the limit, again and again
		s.e.P.Enable()
		for k := 0; k < 4 && !s.bad; k++ {
			p := s.next()
			if p == nil || !s.usable(p) {
				return
			}
			s.e.L.Close()
			t := time.Now()
			p.Close()
			time.Sleep(1200 * time.Millisecond)
			if !listen() {
				return
			}
			if time.Since(t) > 1900*time.Millisecond {
				c.Inconclusive("%s: machine too slow", label)
				return
			}
			s.hist = append(s.hist, "lost, away for 1.2 s")
		}
		s.next()
	case "unlimited":
		s.e.L.Close()
		s.e.P.Enable()
		time.Sleep(time.Duration(4000+s.r.Intn(3000)) * time.Millisecond)
		if listen() {
			if p := s.next(); p != nil {
				s.usable(p)
			}
		}
	case "backoff": // attempts not before 0, 1, 3 s
		s.e.L.Close()
		t := time.Now()
		s.e.P.Enable()
		first := i/8%2 == 0 && base == 1
		at, due := 300*time.Millisecond, time.Second
		if base == 2 { // attempts at 0, 2 and 5 s
			at, due = 2500*time.Millisecond, 5*time.Second
		} else if !first {
			at, due = 1500*time.Millisecond, time.Second+2*time.Second
		}
		st.sleep(at)
		if !listen() {
			return
		}
		p := comes(mon.Hang)
		if p == nil {
			s.fail(nil, "not-coming-back", "no attempt after %v", time.Since(t))
			return
		}
		// a slow machine may make the attempts before late, so that one of them gets through
		if d := time.Since(t); d < due && st.late() < 200*time.Millisecond && (first || d > at+400*time.Millisecond) {
			s.fail(p, "early-backoff", "an attempt %v after the first, due after %v (base %d, max %d)", d, due, base, max)
		}
	case "off-initial":
		s.e.L.Close()
		s.e.P.Enable()
		st.sleep(2 * time.Second)
		if !listen() {
			return
		}
		if p := comes(3 * time.Second); p != nil && st.late() < time.Second {
			s.fail(p, "off-reconnects", "automatic reconnection is off, the first attempt failed, and yet another one came")
		}
	case "off-loss":
		s.e.P.Enable()
		p := s.next()
		if p == nil || !s.usable(p) {
			return
		}
		p.Close()
		if q := comes(3 * time.Second); q != nil {
			s.fail(q, "off-reconnects", "automatic reconnection is off, yet the endpoint connected again after losing its connection")
			return
		}
		s.e.P.Disable()
		s.e.P.Enable()
		if p = s.next(); p != nil {
			s.usable(p)
		}
	}
}

// p17Disabled disables an endpoint in various situations: it makes no attempt afterwards.
func p17Disabled(c *mon.Ctx, label string, i int) {
	kind := []string{"selected", "unselected", "separating", "backing-off", "lost"}[i%5]
	s := p17New(c, label, true, func(t *hsms.SecsTimeout) { t.SetT5ConnSeparateTimeout(1) })
	if s == nil {
		return
	}
	defer s.e.close()
	c.Count("disabled_"+kind, 1)
	c.Case(fmt.Sprintf("disabled %s %d", kind, i), true)
	if kind == "backing-off" {
		s.e.L.Close()
		s.e.P.Enable()
		time.Sleep(time.Duration(100+s.r.Intn(700)) * time.Millisecond)
	} else {
		if kind == "unselected" {
			s.e.P.Enable()
			if _, err := s.e.connect(mon.Hang); err != nil {
				s.fail(nil, "not-coming-back", "%v", err)
				return
			}
		} else {
			s.e.P.Enable()
			p := s.next()
			if p == nil {
				return
			}
			switch kind {
			case "separating":
				p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, p.NextSys()))
				p.WaitClosed(mon.Hang)
				time.Sleep(time.Duration(s.r.Intn(300)) * time.Millisecond)
			case "lost":
				p.Reset()
			}
		}
	}
	s.hist = append(s.hist, kind)
	if !mon.Within(mon.Hang, s.e.P.Disable) {
		s.fail(nil, "disable-hangs", "Disable did not return")
		return
	}
	s.hist = append(s.hist, "Disable")
	if kind == "backing-off" {
		if err := s.e.listen(); err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
	}
	for { // connections from before
		p, ok := s.e.L.Accept(50 * time.Millisecond)
		if !ok {
			break
		}
		if !p.WaitClosed(mon.Hang) {
			s.fail(p, "disabled-connected", "connected after Disable")
			return
		}
	}
	if p, ok := s.e.L.Accept(2500 * time.Millisecond); ok {
		s.fail(p, "disabled-reconnects", "a new connection attempt after Disable had returned")
		return
	}
	s.e.P.Enable()
	if p := s.next(); p != nil {
		s.usable(p)
	}
}
