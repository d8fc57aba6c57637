package props

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P19", Race: true, Run: p19,
		Rule: "one case is one Disable (or Enable) of a live endpoint, with what the endpoint was doing; non-trivial when it was connected, connecting, sending, in a handler or being enabled and disabled by others at the time; distinct by kind of endpoint, situation and history",
		Assume: []string{"prompt means within the 40 s watchdog; T6 is 120 s wherever the peer answers or the connection is lost, so that a wait for T6 shows, and 1-2 s where the peer leaves the deselect request unanswered",
			"a request pending at Disable may fail at once or by its T3",
			"goroutines are counted once every endpoint of the run has been disabled"}})
}

type lifeEp struct {
	*ep
	kind string
	g    *gem.GemHandler
}

func (e *lifeEp) enable() {
	if e.g != nil {
		e.g.Enable()
	} else {
		e.P.Enable()
	}
}

func (e *lifeEp) disable() {
	if e.g != nil {
		e.g.Disable()
	} else {
		e.P.Disable()
	}
}

type p19Run struct {
	c     *mon.Ctx
	label string
	e     *lifeEp
	r     *rand.Rand
	mu    sync.Mutex
	hist  []string
	bad   atomic.Bool
	mute  atomic.Bool // the peer does not answer data
}

func (s *p19Run) fail(key, format string, a ...any) {
	s.bad.Store(true)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.c.Violate(key, map[string]any{"history": s.hist}, "%s (%s) after %v: "+format, append([]any{s.label, s.e.kind, s.hist}, a...)...)
}

func (s *p19Run) note(f string, a ...any) {
	s.mu.Lock()
	s.hist = append(s.hist, fmt.Sprintf(f, a...))
	s.mu.Unlock()
}

var lifeKinds = []string{"hsms active", "hsms passive", "host active", "host passive", "equipment active", "equipment passive"}

func p19(c *mon.Ctx) {
	type job struct {
		label string
		run   func(s *p19Run, i int)
		i     int
	}
	var jobs []job
	add := func(name string, n int, f func(*p19Run, int)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{fmt.Sprintf("%s-%d", name, i), f, i})
		}
	}
	add("churn", c.N(36, 300), p19Churn)
	add("early", c.N(24, 200), p19Early)
	add("blocked", c.N(12, 60), p19Blocked)
	add("in-handler", c.N(12, 60), p19InHandler)
	add("deselect", c.N(18, 120), p19Deselect)
	add("pair", c.N(12, 60), p19Pair)
	add("port-busy", c.N(3, 12), p19PortBusy)
	mon.Parallel(24, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(j.label)()
		s := p19New(c, j.label, lifeKinds[j.i%6])
		if s == nil {
			return
		}
		j.run(s, j.i)
		if !s.bad.Load() {
			s.finalDisable()
		}
		s.e.close()
		if j.i < 1 {
			c.Sample(map[string]any{"case": j.label, "endpoint": s.e.kind, "history": s.hist})
		}
	})
	if c.Violations() > 0 {
		return
	}
	var left string
	if !mon.Eventually(mon.Hang, func() bool { left = p19Left(); return left == "" }) {
		c.Violate("goroutines-left", map[string]any{"stacks": left}, "every endpoint is disabled, %d of their goroutines are still running:\n%s", strings.Count(left, "goroutine "), head(left, 2500))
	}
}

// p19Left is the goroutines of the code under test other than those the harness is blocked in.
func p19Left() string {
	var out []string
	for _, g := range strings.Split(mon.LibStacks(), "\n\n") {
		if g != "" {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func p19New(c *mon.Ctx, label, kind string) *p19Run {
	r := c.Rng(label)
	s := &p19Run{c: c, label: label, r: r}
	e, err := newLife(kind, func(t *hsms.SecsTimeout) {
		t.SetT6ControlTransTimeout(120)
		t.SetT3ReplyTimeout(3)
	})
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	s.e = e
	e.setHook(func(p *peer.Peer, m ref.Msg) bool { return s.mute.Load() && m.SType == ref.Data || gemPeer(p, m) })
	return s
}

// newLife is an endpoint of one of lifeKinds.
func newLife(kind string, cfg func(*hsms.SecsTimeout), opts ...func(*gem.Options)) (*lifeEp, error) {
	e, err := newEp(strings.HasSuffix(kind, "active"), 11, cfg)
	if err != nil {
		return nil, err
	}
	l := &lifeEp{ep: e, kind: kind}
	if !strings.HasPrefix(kind, "hsms") {
		o := gem.Options{Protocol: e.P, DeviceType: gem.DeviceHost, DeviceID: 11, EstablishCommunicationWait: time.Second}
		if strings.HasPrefix(kind, "equipment") {
			o.DeviceType = gem.DeviceEquipment
		}
		for _, f := range opts {
			f(&o)
		}
		if l.g, err = gem.NewGemHandler(o); err != nil {
			return nil, err
		}
	} else {
		e.P.RegisterHandler(1, 1, func(*ast.DataMessage) (*ast.DataMessage, error) { return dataNode(1, 2, 0, ref.Lst()), nil })
	}
	return l, nil
}

// gemPeer answers what a GEM endpoint asks to get going, and S2F17.
func gemPeer(p *peer.Peer, m ref.Msg) bool {
	if m.SType != ref.Data || m.PType != 0 {
		return false
	}
	re := func(f int, it ref.Item) bool {
		p.Send(ref.DataMsg(m.Session, m.Stream(), f, false, m.Sys, it))
		return true
	}
	switch [2]int{m.Stream(), m.Function()} {
	case [2]int{1, 13}:
		return re(14, ref.Lst(ref.Bin(0), ref.Lst()))
	case [2]int{1, 1}:
		return re(2, ref.Lst())
	case [2]int{2, 17}:
		return re(18, ref.Asc("2026010203040500"))
	}
	return false
}

// finalDisable disables the endpoint, which nobody else does any more, and looks at what is left.
func (s *p19Run) finalDisable() {
	s.note("final Disable")
	if !mon.Within(mon.Hang, s.e.disable) {
		s.fail("disable-hangs", "Disable did not return within %v\n%s", mon.Hang, head(mon.LibStacks(), 3000))
		return
	}
	s.disabled()
}

func (s *p19Run) disabled() {
	P := s.e.P
	var err error
	if !mon.Within(mon.Hang, func() { _, err = P.SendAndWait(dataNode(1, 1, 1, ref.Item{})) }) || err == nil {
		s.fail("send-after-disable", "SendAndWait after Disable gives %v", err)
		return
	}
	if err := P.SendDataMessage(dataNode(1, 1, 0, ref.Item{})); err == nil {
		s.fail("send-after-disable", "SendDataMessage after Disable succeeds")
		return
	}
	s.e.mu.Lock()
	peers := append([]*peer.Peer(nil), s.e.peers...)
	s.e.mu.Unlock()
	if s.e.Active {
		for {
			p, ok := s.e.L.Accept(30 * time.Millisecond)
			if !ok {
				break
			}
			peers = append(peers, p)
		}
	}
	for _, p := range peers {
		if !p.WaitClosed(mon.Hang) {
			s.fail("connection-left", "a connection is still open after Disable; state %s\n%s", P.CurrentState(), strings.Join(p.Log(8), "\n"))
			return
		}
	}
	if !mon.Eventually(mon.Hang, func() bool { return P.CurrentState() == hsms.StateNotConnected && !P.Connected() }) {
		s.fail("state-left", "after Disable the state is %s, connected=%v", P.CurrentState(), P.Connected())
		return
	}
	if s.e.g != nil && !mon.Eventually(mon.Hang, func() bool { return s.e.g.State() != gem.CommunicationStateCommunicating }) {
		s.fail("communicating-left", "still communicating after Disable")
		return
	}
	if !s.e.Active {
		ok := mon.Eventually(mon.Hang, func() bool {
			l, err := net.Listen("tcp", s.e.addr())
			if err == nil {
				l.Close()
			}
			return err == nil
		})
		if !ok {
			s.fail("port-left", "the port is still taken after Disable")
		}
	}
}

// usable enables the endpoint and uses it.
func (s *p19Run) usable() *peer.Peer {
	s.note("Enable")
	s.e.enable()
	p, err := s.e.up(mon.Hang)
	if err != nil {
		s.fail("not-usable", "after Enable: %v (connected=%v)\n%s", err, s.e.P.Connected(), head(mon.LibStacks(), 3000))
		return nil
	}
	if _, err := p.Request(mon.Hang, 1, 1, ref.Item{}); err != nil {
		s.fail("not-usable", "after Enable, a request is not answered: %v", err)
		return nil
	}
	if s.e.g != nil && !s.e.g.WaitForCommunicating(mon.Hang) {
		s.fail("not-communicating", "after Enable, communication is not established\n%s", strings.Join(p.Log(12), "\n"))
		return nil
	}
	// a late goodbye of an overlapping Disable may still end the connection: only an intact one counts
	for try := 0; try < 20; try++ {
		_, err = s.e.P.SendAndWait(dataNode(2, 17, 1, ref.Item{}))
		if err == nil || !p.Closed() {
			break
		}
		if p, err = s.e.up(mon.Hang); err != nil {
			break
		}
	}
	if err != nil {
		s.fail("not-usable", "after Enable, SendAndWait gives %v (state %s, connected=%v)", err, s.e.P.CurrentState(), s.e.P.Connected())
		return nil
	}
	return p
}

// p19Churn has several goroutines enable and disable while others send and the peer comes and goes.
func p19Churn(s *p19Run, i int) {
	r := s.r
	if r.Intn(2) == 0 {
		s.e.P.SetLogger(&perturb{r: rand.New(rand.NewSource(r.Int63())), max: 4 * time.Millisecond})
	}
	for round := 0; round < 2 && !s.bad.Load(); round++ {
		stop := make(chan struct{})
		var wg, users sync.WaitGroup
		running := func() bool {
			select {
			case <-stop:
				return false
			default:
				return true
			}
		}
		seed := r.Int63()
		users.Add(2)
		go func() { // the peer
			defer users.Done()
			r := rand.New(rand.NewSource(seed))
			for running() {
				p, err := s.e.connect(50 * time.Millisecond)
				if err != nil {
					continue
				}
				if !s.e.Active {
					p.Select(300 * time.Millisecond)
				}
				for k := r.Intn(6); k > 0 && running() && !p.Closed(); k-- {
					p.Send(ref.DataMsg(s.e.Session, 1, 1, true, p.NextSys(), ref.Item{}))
					time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
				}
				switch r.Intn(4) {
				case 0:
					p.Reset()
				case 1:
					p.Close()
				case 2:
					p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, p.NextSys()))
				default: // kept
					p.WaitClosed(100 * time.Millisecond)
					if s.e.Active || r.Intn(2) == 0 {
						p.Close()
					}
				}
			}
		}()
		go func() { // the application
			defer users.Done()
			for running() {
				s.e.P.SendDataMessage(dataNode(6, 11, 0, ref.Asc("x")))
				if s.e.P.CurrentState() == hsms.StateConnectedSelected {
					s.e.P.SendAndWait(dataNode(2, 17, 1, ref.Item{}))
				}
				time.Sleep(time.Millisecond)
			}
		}()
		n := 1 + r.Intn(3)
		var ops [][]int
		for k := 0; k < n; k++ {
			var o []int
			for j := 2 + r.Intn(4); j > 0; j-- {
				o = append(o, r.Intn(2), r.Intn(25))
			}
			ops = append(ops, o)
		}
		s.note("%d goroutines %v", n, ops)
		s.e.enable()
		for _, o := range ops {
			wg.Add(1)
			go func(o []int) {
				defer wg.Done()
				for k := 0; k < len(o); k += 2 {
					time.Sleep(time.Duration(o[k+1]) * time.Millisecond)
					if o[k] == 0 {
						s.e.enable()
						s.c.Count("enables", 1)
					} else if !mon.Within(mon.Hang, s.e.disable) {
						s.fail("disable-hangs", "Disable did not return within %v\n%s", mon.Hang, head(mon.LibStacks(), 3000))
					} else {
						s.c.Count("disables", 1)
					}
				}
			}(o)
		}
		wg.Wait()
		close(stop)
		if !mon.Within(mon.Hang, users.Wait) {
			s.fail("request-hangs", "a request or the peer is stuck after the endpoint was disabled\n%s", head(mon.LibStacks(), 3000))
			return
		}
		s.c.Case(fmt.Sprintf("churn %s %v", s.e.kind, s.hist), n > 1)
		if s.bad.Load() {
			return
		}
		s.finalDisable()
		if !s.bad.Load() && s.usable() != nil {
			s.finalDisable()
		}
	}
}

// p19Early disables right after enabling, at every stage of getting connected.
func p19Early(s *p19Run, i int) {
	r := s.r
	for k := s.c.N(6, 12); k > 0 && !s.bad.Load(); k-- {
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		dial := r.Intn(3) > 0
		s.note("Enable, Disable %v later", d)
		s.e.enable()
		var wg sync.WaitGroup
		if dial && !s.e.Active {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p, err := s.e.connect(10 * time.Millisecond); err == nil {
					p.Send(ref.Ctrl(ref.SelectReq, s.e.Session, p.NextSys()))
				}
			}()
		}
		time.Sleep(d)
		s.finalDisable()
		wg.Wait()
		s.c.Case(fmt.Sprintf("early %s %v %v", s.e.kind, d, dial), true)
		s.c.Count("early_disables", 1)
	}
	if !s.bad.Load() {
		s.usable()
	}
}

// p19Blocked disables while senders are blocked on a peer that does not read.
func p19Blocked(s *p19Run, i int) {
	s.e.P.Timeouts().SetT6ControlTransTimeout(2)
	s.e.enable()
	var p *peer.Peer
	var err error
	if p, err = s.e.up(mon.Hang); err != nil {
		s.fail("not-usable", "%v", err)
		return
	}
	if s.e.g != nil {
		s.e.g.WaitForCommunicating(mon.Hang)
	}
	p.Pause()
	var wg sync.WaitGroup
	var blocked, returned atomic.Int32
	big := dataNode(6, 11, 0, ref.Asc(strings.Repeat("b", 1<<18)))
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 400; k++ {
				blocked.Add(1)
				err := s.e.P.SendDataMessage(big)
				returned.Add(1)
				if err != nil {
					return
				}
			}
		}()
	}
	// blocked once nothing has returned for a while
	last, still := int32(-1), 0
	for k := 0; k < 300 && still < 8; k++ {
		time.Sleep(100 * time.Millisecond)
		n := returned.Load()
		if still++; n != last || blocked.Load()-n < 3 {
			last, still = n, 0
		}
	}
	s.note("%d senders blocked", blocked.Load()-returned.Load())
	s.c.Count("blocked_senders", int(blocked.Load()-returned.Load()))
	s.c.Case(fmt.Sprintf("blocked %s %d", s.e.kind, i), true)
	ok := mon.Within(mon.Hang, s.e.disable)
	p.Resume()
	if !ok {
		s.fail("disable-hangs", "Disable did not return within %v with senders blocked on a peer that does not read", mon.Hang)
		return
	}
	if !mon.Within(mon.Hang, wg.Wait) {
		s.fail("request-hangs", "senders are still blocked after Disable")
		return
	}
	s.disabled()
	if !s.bad.Load() {
		s.usable()
	}
}

// p19InHandler disables from within a handler.
func p19InHandler(s *p19Run, i int) {
	s.e.P.Timeouts().SetT6ControlTransTimeout(1)
	done := make(chan struct{})
	s.e.P.RegisterHandler(99, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
		s.e.disable()
		close(done)
		return dataNode(99, 2, 0, ref.Item{}), nil
	})
	if p := s.usable(); p != nil {
		p.Send(ref.DataMsg(s.e.Session, 99, 1, true, p.NextSys(), ref.Item{}))
		s.c.Case(fmt.Sprintf("in-handler %s %d", s.e.kind, i), true)
		s.note("Disable from a handler")
		select {
		case <-done:
		case <-time.After(mon.Hang):
			s.fail("disable-hangs", "Disable called from a handler did not return within %v\n%s", mon.Hang, head(mon.LibStacks(), 3000))
			return
		}
		s.disabled()
		if !s.bad.Load() {
			s.e.P.RegisterHandler(99, 1, nil)
			s.usable()
		}
	}
}

// p19Deselect disables a selected endpoint whose peer reacts in various ways to the goodbye.
func p19Deselect(s *p19Run, i int) {
	kind := []string{"silent", "data", "refused", "reset", "pending", "slow-handler"}[s.r.Intn(6)]
	if kind == "silent" || kind == "refused" {
		s.e.P.Timeouts().SetT6ControlTransTimeout(1)
	}
	s.note("peer %s", kind)
	slow := make(chan struct{}, 1)
	s.e.P.RegisterHandler(99, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
		slow <- struct{}{}
		time.Sleep(400 * time.Millisecond)
		return nil, nil
	})
	base := func(p *peer.Peer, m ref.Msg) bool { return s.mute.Load() && m.SType == ref.Data || gemPeer(p, m) }
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType != ref.DeselectReq {
			return base(p, m)
		}
		switch kind {
		case "silent":
			return true
		case "data": // something else on the line first, then the answer
			p.Send(ref.DataMsg(s.e.Session, 6, 1, false, p.NextSys(), ref.Item{}))
			p.Send(ref.Ctrl(ref.LinktestReq, 0xFFFF, p.NextSys()))
		case "refused":
			x := ref.Ctrl(ref.DeselectRsp, m.Session, m.Sys)
			x.Byte3 = 1
			p.Send(x)
			return true
		case "reset":
			p.Reset()
			return true
		}
		return false
	})
	for round := 0; round < 2 && !s.bad.Load(); round++ {
		p := s.usable()
		if p == nil {
			return
		}
		var wg sync.WaitGroup
		switch kind {
		case "pending":
			s.mute.Store(true)
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if _, err := s.e.P.SendAndWait(dataNode(2, 25, 1, ref.Item{})); err == nil {
						s.fail("pending-answered", "a request without an answer returned without an error")
					} else if !errors.Is(err, hsms.ErrT3Timeout) && !errors.Is(err, hsms.ErrNotConnected) && !errors.Is(err, hsms.ErrNotSelected) {
						s.c.Count("pending_other_error", 1)
					}
				}()
			}
			p.WaitFor(mon.Hang, 3, func(m ref.Msg) bool { return m.Stream() == 2 && m.Function() == 25 })
		case "slow-handler":
			p.Send(ref.DataMsg(s.e.Session, 99, 1, false, p.NextSys(), ref.Item{}))
			select {
			case <-slow:
			case <-time.After(mon.Hang):
			}
		}
		s.c.Case(fmt.Sprintf("deselect %s %s %d %d", s.e.kind, kind, i, round), true)
		s.c.Count("deselect_"+kind, 1)
		s.finalDisable()
		if !mon.Within(mon.Hang, wg.Wait) {
			s.fail("request-hangs", "requests pending at Disable are still waiting, T3 is 3 s")
		}
		s.mute.Store(false)
	}
}

// p19Pair calls Enable and Disable at the same instant, again and again; either may win, but a
// Disable that follows leaves nothing behind.
func p19Pair(s *p19Run, i int) {
	r := s.r
	if s.e.Active {
		s.e.L.Close() // refused
	}
	var acts []func()
	for k := 0; k < s.c.N(150, 600) && !s.bad.Load(); k++ {
		acts = acts[:0]
		for j := 2 + r.Intn(3); j > 0; j-- {
			if r.Intn(2) == 0 || j == 2 {
				acts = append(acts, s.e.enable)
			} else {
				acts = append(acts, s.e.disable)
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range acts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		if !mon.Within(mon.Hang, wg.Wait) {
			s.fail("disable-hangs", "concurrent Enable and Disable\n%s", head(mon.LibStacks(), 3000))
			return
		}
		s.c.Count("simultaneous_calls", len(acts))
		if !mon.Within(mon.Hang, s.e.disable) {
			s.fail("disable-hangs", "Disable after concurrent calls\n%s", head(mon.LibStacks(), 3000))
			return
		}
		if s.e.Active {
			continue // seen by the goroutine count
		}
		if k%10 == 9 {
			s.disabled()
			s.c.Case(fmt.Sprintf("pair %s %d %d", s.e.kind, i, k), true)
		}
	}
	s.note("simultaneous Enable and Disable")
	if s.e.Active {
		if err := s.e.listen(); err != nil {
			s.bad.Store(true)
			s.c.Inconclusive("%s: %v", s.label, err)
			return
		}
		if _, ok := s.e.L.Accept(2500 * time.Millisecond); ok {
			s.fail("attempt-after-disable", "a connection attempt after Disable")
			return
		}
	}
	s.usable()
}

// p19PortBusy disables a passive endpoint that cannot get its port.
func p19PortBusy(s *p19Run, i int) {
	if s.e.Active {
		return
	}
	l, err := net.Listen("tcp", s.e.addr())
	if err != nil {
		s.c.Inconclusive("%s: %v", s.label, err)
		return
	}
	s.note("port busy")
	s.e.enable()
	time.Sleep(time.Duration(s.r.Intn(300)) * time.Millisecond)
	s.c.Case(fmt.Sprintf("port-busy %s %d", s.e.kind, i), true)
	if s.r.Intn(2) == 0 {
		if !mon.Within(mon.Hang, s.e.disable) {
			s.fail("disable-hangs", "Disable while the port is busy")
		}
	}
	l.Close()
	if !s.bad.Load() {
		s.usable()
	}
}
