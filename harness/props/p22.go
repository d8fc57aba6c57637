package props

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P22", Race: true, Run: p22,
		Rule: "one case is one selected period of a connection with its S1F13 exchanges, judged with all states, events and waiters recorded meanwhile; non-trivial when an exchange took place in it; distinct by label, endpoint, answers given and way it ended",
		Assume: []string{"the state may lag behind the loss of the connection (it is polled), so loss is judged by 'eventually' and by 'never again without a new exchange'",
			"an S1F14 after T3, or after the connection was deselected and selected again, is unspecified; so is one that answers nothing",
			"the configured wait applies to the host and to one selected period"}})
}

// A commEpoch is a period in which one connection is selected.
type commEpoch struct {
	n        int
	start    int64 // harness sequence numbers
	grant    int64 // the first exchange that may establish communication; 0: none
	firm     bool  // one of the exchanges must establish it
	done     bool  // it was seen to
	end      int64 // 0: still selected
	quiet    int64 // seen not communicating after end
	how      string
	answers  []string
	attempts []time.Time // the endpoint's S1F13
	refused  []time.Time // when the answer to the last one was sent; parallel
}

type commWaiter struct {
	start, end int64
	ok, long   bool
	timeout    time.Duration
}

type commState struct {
	prev, seq int64 // of the sample before and of this one
	comm      bool
}

type commRun struct {
	*gemRig
	host    bool
	wait    time.Duration
	t3      int
	mode    string
	mu2     sync.Mutex
	epochs  []*commEpoch
	open    bool // the last epoch is on
	events  []int64
	states  []commState
	waiters []*commWaiter
	wg      sync.WaitGroup
	stop    chan struct{}
	plan    []string // behaviours for the next S1F13s
	late    sync.WaitGroup

	gate    bool // answer select.req
	pending []func()
}

// openGate lets the endpoint's select.req be answered.
func (s *commRun) openGate() {
	s.mu2.Lock()
	defer s.mu2.Unlock()
	s.gate = true
	for _, f := range s.pending {
		f()
	}
	s.pending = nil
}

func (s *commRun) cur() *commEpoch { return s.epochs[len(s.epochs)-1] }

func (s *commRun) grant(firm bool) {
	e := s.cur()
	if e.grant == 0 {
		e.grant = peer.NextSeq()
	}
	e.firm = e.firm || firm
}

// hook answers the endpoint's S1F13 as planned.
func (s *commRun) hook(p *peer.Peer, m ref.Msg) bool {
	if m.PType == 0 && m.SType == ref.SelectReq {
		s.mu2.Lock()
		defer s.mu2.Unlock()
		if !s.gate {
			s.pending = append(s.pending, func() { p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys)) })
		}
		return !s.gate
	}
	if m.SType != ref.Data || m.PType != 0 || m.Stream() != 1 || m.Function() != 13 {
		return gemPeer(p, m)
	}
	s.mu2.Lock()
	defer s.mu2.Unlock()
	e := s.cur()
	do := "ignore"
	if !s.open {
		return true
	}
	if len(s.plan) > 0 {
		do, s.plan = s.plan[0], s.plan[1:]
	}
	e.answers = append(e.answers, do)
	e.attempts = append(e.attempts, time.Now())
	e.refused = append(e.refused, time.Now())
	s.note("the endpoint's S1F13 in epoch %d: %s", e.n, do)
	re := func(f int, it ref.Item) {
		p.Send(ref.DataMsg(m.Session, 1, f, false, m.Sys, it))
	}
	switch do {
	case "accept":
		s.grant(true)
		re(14, ref.Lst(ref.Bin(0), ref.Lst()))
	case "accept slowly":
		s.late.Add(1)
		go func() {
			defer s.late.Done()
			time.Sleep(300 * time.Millisecond)
			s.mu2.Lock()
			defer s.mu2.Unlock()
			// when this is another epoch, the answer is too late for its connection
			if e == s.cur() && s.open {
				s.grant(true)
			} else {
				s.grant(false)
			}
			re(14, ref.Lst(ref.Bin(0), ref.Lst()))
		}()
	case "accept too late":
		s.late.Add(1)
		go func() {
			defer s.late.Done()
			time.Sleep(time.Duration(s.t3)*time.Second + 200*time.Millisecond)
			s.mu2.Lock()
			defer s.mu2.Unlock()
			s.grant(false)
			re(14, ref.Lst(ref.Bin(0), ref.Lst()))
		}()
	case "refuse":
		re(14, ref.Lst(ref.Bin(byte(1+len(e.answers)%255)), ref.Lst()))
	case "malformed":
		re(14, []ref.Item{{}, ref.Lst(), ref.Lst(ref.Asc("0"), ref.Lst()), ref.Lst(ref.Item{K: ref.B}, ref.Lst()), ref.Lst(ref.Lst(), ref.Bin(0)), ref.Lst(ref.Uint(ref.U1, 0), ref.Lst())}[len(e.answers)%6])
	case "abort":
		re(0, ref.Item{})
	case "wrong function":
		re(16, ref.Lst(ref.Bin(0), ref.Lst()))
	}
	return true
}

func (s *commRun) sampler() {
	defer s.wg.Done()
	last := int64(0)
	comm, first := false, true
	for {
		select {
		case <-s.stop:
			return
		default:
		}
		q := peer.NextSeq()
		now := s.G.State() == gem.CommunicationStateCommunicating
		q2 := peer.NextSeq()
		if first || now != comm {
			s.mu2.Lock()
			s.states = append(s.states, commState{last, q2, now})
			s.mu2.Unlock()
			comm, first = now, false
		}
		last = q
		time.Sleep(3 * time.Millisecond)
	}
}

func (s *commRun) comms() bool { return s.G.State() == gem.CommunicationStateCommunicating }

// startWaiter waits for communication from a goroutine of its own.
func (s *commRun) startWaiter(long bool) {
	w := &commWaiter{start: peer.NextSeq(), long: long}
	switch {
	case !long:
		w.timeout = time.Duration(1+s.r.Intn(600)) * time.Millisecond
	case s.r.Intn(2) == 0:
		w.timeout = 10 * mon.Hang
	}
	s.mu2.Lock()
	s.waiters = append(s.waiters, w)
	s.mu2.Unlock()
	go func() {
		ok := s.G.WaitForCommunicating(w.timeout)
		s.mu2.Lock()
		w.ok, w.end = ok, peer.NextSeq()
		s.mu2.Unlock()
	}()
}

// begin makes a connection and starts an epoch; false: give up.
func (s *commRun) begin() bool {
	s.mu2.Lock()
	s.plan = s.newPlan()
	e := &commEpoch{n: len(s.epochs), start: 0}
	s.epochs = append(s.epochs, e)
	s.open = true
	s.mu2.Unlock()
	s.openGate()
	p, err := s.e.up(mon.Hang)
	if err != nil {
		s.c.Inconclusive("%s: %v", s.label, err)
		return false
	}
	s.p = p
	s.started(e)
	return true
}

func (s *commRun) started(e *commEpoch) {
	s.mu2.Lock()
	e.start = peer.NextSeq()
	s.mu2.Unlock()
	s.note("epoch %d selected, plan %v", e.n, s.plan)
	s.c.Count("selected periods", 1)
}

func (s *commRun) newPlan() (out []string) {
	kinds := []string{"accept", "accept", "accept slowly", "accept too late", "refuse", "refuse", "malformed", "abort", "wrong function", "ignore"}
	if s.mode == "refuse" {
		kinds = []string{"refuse", "malformed", "abort", "refuse"}
	}
	for i := s.r.Intn(5); i >= 0; i-- {
		out = append(out, kinds[s.r.Intn(len(kinds))])
	}
	return
}

// established waits until the epoch's exchange has taken effect.
func (s *commRun) established(e *commEpoch, what string) bool {
	ok := mon.Eventually(mon.Hang, func() bool {
		s.mu2.Lock()
		n := len(s.events)
		done := n > 0 && s.events[n-1] > e.grant
		s.mu2.Unlock()
		return done && s.comms() || s.p.Closed()
	})
	if s.p.Closed() {
		s.c.Inconclusive("%s: the endpoint closed the connection", s.label)
		return false
	}
	if !ok {
		s.fail("not-established", "%s did not establish communication: state %v, events %d", what, s.G.State(), len(s.events))
		return false
	}
	e.done = true
	s.c.Count("communication established", 1)
	return true
}

func s1f13Body(r *rand.Rand) ref.Item {
	switch r.Intn(6) {
	case 0:
		return ref.Item{}
	case 1:
		return ref.Lst(ref.Asc("MDLN"), ref.Asc("1.0"))
	case 2:
		return ref.Gen(r, 3, 5)
	}
	return ref.Lst()
}

// peerS1F13 asks the endpoint for communication.
func (s *commRun) peerS1F13() bool {
	e := s.cur()
	body := s1f13Body(s.r)
	s.mu2.Lock()
	s.grant(true)
	s.mu2.Unlock()
	s.note("the peer's S1F13 %s in epoch %d", cutStr(body.String(), 100), e.n)
	s.mu2.Lock()
	e.answers = append(e.answers, "S1F13")
	s.mu2.Unlock()
	m, err := s.p.Request(mon.Hang, 1, 13, body)
	if err != nil {
		if s.p.Closed() {
			s.c.Inconclusive("%s: the endpoint closed the connection", s.label)
			return false
		}
		s.fail("s1f14", "S1F13 is not answered: %v", err)
		return false
	}
	it, err := m.Item()
	ok := err == nil && m.Function() == 14 && it.K == ref.L && len(it.List) == 2 && it.List[0].K == ref.B && len(it.List[0].Words) == 1 && it.List[1].K == ref.L
	if ok && s.host {
		ok = len(it.List[1].List) == 0
	} else if ok {
		l := it.List[1].List
		ok = len(l) == 2 && l[0].K == ref.A && l[0].Str() == "MODEL-22" && l[1].K == ref.A && l[1].Str() == "rev 9"
	}
	if !ok || it.List[0].Words[0] != 0 {
		s.fail("s1f14", "S1F13 %s is answered with S%dF%d %s", body, m.Stream(), m.Function(), it)
		return false
	}
	return s.established(e, "the peer's S1F13, accepted by the endpoint,")
}

// attempt waits for the endpoint's n-th S1F13 of this epoch.
func (s *commRun) attempt(e *commEpoch, n int) bool {
	ok := mon.Eventually(mon.Hang, func() bool {
		s.mu2.Lock()
		defer s.mu2.Unlock()
		return len(e.attempts) >= n || e.grant != 0
	})
	s.mu2.Lock()
	got, granted := len(e.attempts), e.grant != 0
	s.mu2.Unlock()
	if !ok && !s.p.Closed() {
		s.fail("no-attempt", "epoch %d: %d S1F13 came, then none any more within %v, state %v\n%s", e.n, got, mon.Hang, s.G.State(), s.p.Log(8))
		return false
	}
	return ok && !granted
}

// finish ends the epoch; true when the next one is already selected.
func (s *commRun) finish() bool {
	r := s.r
	e := s.cur()
	how := []string{"close", "reset", "separate", "deselect", "disable", "deselect", "close"}[r.Intn(7)]
	s.mu2.Lock()
	e.how, e.end, s.open, s.gate = how, peer.NextSeq(), false, false
	s.mu2.Unlock()
	s.note("epoch %d ends: %s", e.n, how)
	switch how {
	case "close":
		s.p.Close()
	case "reset":
		s.p.Reset()
	case "separate":
		s.p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, s.p.NextSys()))
	case "deselect":
		s.p.Send(ref.Ctrl(ref.DeselectReq, s.e.Session, s.p.NextSys()))
	case "disable":
		if !mon.Within(mon.Hang, s.G.Disable) {
			s.fail("disable-hangs", "Disable did not return within %v", mon.Hang)
			return false
		}
		if s.comms() {
			s.fail("disabled", "communicating after Disable")
			return false
		}
	}
	quick := r.Intn(3) == 0
	if !quick {
		if !mon.Eventually(mon.Hang, func() bool { return !s.comms() }) {
			s.fail("not-lost", "%v after the connection was lost (%s) the state is still communicating; connection state %s", mon.Hang, how, s.e.P.CurrentState())
			return false
		}
		s.mu2.Lock()
		// an exchange under way at the end may still take effect for a moment
		over := e.done || e.grant == 0
		if over {
			e.quiet = peer.NextSeq()
		}
		s.mu2.Unlock()
		if s.host && over {
			if _, err := s.G.RequestDateTime(); !errors.Is(err, gem.ErrNotCommunicating) {
				s.fail("call", "not communicating, but a host call gives %v", err)
			}
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(1200)) * time.Millisecond)
		}
	}
	switch how {
	case "disable":
		s.G.Enable()
		s.note("enabled")
	case "deselect":
		if r.Intn(4) == 0 {
			s.p.Close()
			break
		}
		s.mu2.Lock()
		s.plan = s.newPlan()
		n := &commEpoch{n: len(s.epochs)}
		s.epochs = append(s.epochs, n)
		s.open = true
		s.mu2.Unlock()
		if err := s.p.Select(mon.Hang); err != nil {
			s.c.Inconclusive("%s: select after deselect: %v", s.label, err)
			return false
		}
		s.started(n)
		return true
	}
	return false
}

func (s *commRun) run(epochs int) {
	r := s.r
	up := false
	for k := 0; k < epochs && !s.isBad() && s.c.Violations() == 0; k++ {
		if r.Intn(3) > 0 {
			s.startWaiter(r.Intn(3) == 0)
		}
		if !up && !s.begin() {
			return
		}
		e := s.cur()
		if r.Intn(8) == 0 { // a short one
			time.Sleep(time.Duration(r.Intn(900)) * time.Millisecond)
			if r.Intn(2) == 0 {
				s.mu2.Lock()
				s.grant(true)
				e.answers = append(e.answers, "S1F13 at the end")
				s.mu2.Unlock()
				s.p.Send(ref.DataMsg(s.e.Session, 1, 13, true, s.p.NextSys(), ref.Lst()))
			}
		} else {
			for n := 1; n <= 3; n++ {
				if s.mode == "peer" && r.Intn(2) == 0 || s.mode != "refuse" && r.Intn(6) == 0 {
					if !s.peerS1F13() {
						return
					}
					break
				}
				if !s.attempt(e, n) {
					break
				}
			}
			if s.isBad() {
				return
			}
			if r.Intn(4) == 0 {
				s.startWaiter(false)
			}
			s.mu2.Lock()
			firm, granted := e.firm, e.grant != 0
			s.mu2.Unlock()
			if firm {
				if !s.established(e, "the accepted S1F13") {
					return
				}
				s.stable(e)
			} else if !granted && s.mode != "refuse" {
				if !s.peerS1F13() {
					return
				}
				s.stable(e)
			}
		}
		if s.isBad() {
			return
		}
		s.mu2.Lock()
		nontrivial := len(e.answers) > 0
		key := fmt.Sprint(s.label, s.e.kind, e.n, e.answers)
		s.mu2.Unlock()
		s.c.Case(key, nontrivial)
		up = s.finish()
	}
}

// stable: on an undisturbed connection communication lasts, whatever comes in on it.
func (s *commRun) stable(e *commEpoch) {
	mark := peer.NextSeq()
	r := s.r
	for n := r.Intn(4); n >= 0 && !s.isBad(); n-- {
		switch r.Intn(6) {
		case 0:
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		case 1:
			s.p.Send(ref.DataMsg(s.e.Session, 1, 14, false, s.p.NextSys(), ref.Lst(ref.Bin(1), ref.Lst())))
		case 2:
			if !s.peerS1F13() {
				return
			}
		case 3:
			s.p.Send(ref.DataMsg(s.e.Session, 1, 14, false, s.p.NextSys(), ref.Item{}))
		case 4:
			s.p.Linktest(mon.Hang)
		case 5:
			s.startWaiter(r.Intn(2) == 0)
		}
	}
	if s.p.Closed() {
		return
	}
	end := peer.NextSeq()
	s.mu2.Lock()
	var at *commState
	for i := range s.states {
		if st := s.states[i]; !st.comm && st.prev > mark && st.seq < end {
			at = &s.states[i]
		}
	}
	var stuck, early *commWaiter
	s.mu2.Unlock()
	if at != nil {
		s.fail("flap", "communication was lost for a while on a stable connection (epoch %d)", e.n)
		return
	}
	if !mon.Eventually(mon.Hang, func() bool {
		s.mu2.Lock()
		defer s.mu2.Unlock()
		stuck, early = nil, nil
		for _, w := range s.waiters {
			if w.start < end && w.long && w.end == 0 {
				stuck = w
			} else if w.end > 0 && !w.ok && w.start > mark && w.end < end {
				early = w
			}
		}
		return stuck == nil
	}) && !s.p.Closed() && s.comms() {
		s.fail("waiter", "a waiter (timeout %v) is not released though communication is established", stuck.timeout)
	} else if early != nil {
		s.fail("waiter", "a waiter (timeout %v) gave up though communication was established all along", early.timeout)
	}
	s.c.Count("stable periods", 1)
}

// judge looks at everything recorded.
func (s *commRun) judge() {
	s.mu2.Lock()
	defer s.mu2.Unlock()
	granted := func(from, to int64) bool { // may an exchange in an epoch that was on at from, or later, have counted by to?
		last := 0
		for i, e := range s.epochs {
			if e.start > 0 && e.start <= from {
				last = i
			}
		}
		for _, e := range s.epochs[last:] {
			if e.grant > 0 && e.grant < to {
				return true
			}
		}
		return false
	}
	for _, st := range s.states {
		if st.comm && !granted(st.prev, st.seq) {
			s.fail("communicating", "the state became communicating (%v) without an accepted exchange on the connection%s", st, s.dump())
			return
		}
	}
	for i, q := range s.events {
		n := 0
		for _, e := range s.epochs {
			if e.grant > 0 && e.grant < q {
				n++
			}
		}
		if n < i+1 {
			s.fail("event", "HandlerCommunicating fired %d times by then, with %d connections on which communication was agreed: %v%s", i+1, n, s.events, s.dump())
			return
		}
	}
	for _, w := range s.waiters {
		if w.end == 0 || !w.ok {
			continue
		}
		just := false
		for _, e := range s.epochs {
			if e.grant > 0 && e.grant < w.end && (e.quiet == 0 || e.quiet > w.start) {
				just = true
			}
		}
		if !just {
			s.fail("waiter-early", "a waiter (timeout %v, from %d to %d) was released without communication being established: events %v, states %v%s", w.timeout, w.start, w.end, s.events, s.states, s.dump())
			return
		}
		s.c.Count("waiters released", 1)
	}
	for _, e := range s.epochs {
		s.c.Max("S1F13 of one selected period", len(e.attempts))
		s.c.Count("S1F13 of the endpoint", len(e.attempts))
		if !s.host {
			continue
		}
		for i := 1; i < len(e.attempts); i++ {
			if gap := e.attempts[i].Sub(e.refused[i-1]); gap < s.wait {
				s.fail("early", "epoch %d: the host's S1F13 %d came %v after the one before was answered (%s); the wait is %v", e.n, i+1, gap, e.answers[i-1], s.wait)
				return
			}
		}
	}
}

func (s *commRun) dump() (out string) {
	for _, e := range s.epochs {
		out += fmt.Sprintf("\nperiod %d from %d to %d (%s), quiet at %d: first grant %d, firm %v, %v", e.n, e.start, e.end, e.how, e.quiet, e.grant, e.firm, e.answers)
	}
	return
}

func p22(c *mon.Ctx) {
	modes := []string{"mixed", "mixed", "peer", "refuse"}
	kinds := []string{"host active", "host passive", "equipment active", "equipment passive"}
	var jobs []gemJob
	jobs = addJobs(jobs, "peer", c.N(160, 480), func(label string, i int) {
		r0 := c.Rng(label + "cfg")
		wait := time.Duration(600+r0.Intn(900)) * time.Millisecond
		t3 := 1 + r0.Intn(2)
		g := newGemRig(c, label, kinds[i%4], func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(t3) },
			func(o *gem.Options) { o.EstablishCommunicationWait = wait; o.MDLN, o.SOFTREV = "MODEL-22", "rev 9" })
		if g == nil {
			return
		}
		s := &commRun{gemRig: g, host: i%4 < 2, wait: wait, t3: t3, mode: modes[(i/4)%4], stop: make(chan struct{})}
		s.epochs = []*commEpoch{{n: 0, how: "none", start: 1, end: 1}}
		g.e.setHook(s.hook)
		s.G.Events().HandlerCommunicating.AddCallback(func(map[string]any) {
			s.mu2.Lock()
			s.events = append(s.events, peer.NextSeq())
			s.mu2.Unlock()
		})
		s.wg.Add(1)
		go s.sampler()
		if r0.Intn(2) == 0 {
			s.startWaiter(false)
		}
		s.G.Enable()
		s.run(c.N(5, 20))
		close(s.stop)
		s.wg.Wait()
		s.late.Wait()
		s.close()
		s.judge()
		if i == 0 {
			c.Sample(map[string]any{"case": label, "history": s.hist[:min(len(s.hist), 12)]})
		}
	})
	jobs = addJobs(jobs, "waiters", c.N(6, 30), func(label string, i int) { p22Waiters(c, label, i) })
	jobs = addJobs(jobs, "pair", c.N(24, 80), func(label string, i int) { p22Pair(c, label, i) })
	gemJobs(c, 200, jobs)
}

// p22Waiters: callers that start to wait at about the moment communication is established are
// all released.
func p22Waiters(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "host passive", "equipment active", "host active"}[i%4], nil)
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	const workers = 24
	for k := 0; k < c.N(60, 400) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		s.G.Enable()
		p, err := s.e.up(mon.Hang)
		if err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
		s.p = p
		var wg sync.WaitGroup
		var mu sync.Mutex
		early := 0
		for w := 0; w < workers; w++ {
			spin := r.Intn(40000)
			timeout := time.Duration(r.Intn(2)) * 10 * mon.Hang
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := 0
				for j := 0; j < spin; j++ {
					x += j
				}
				if !s.G.WaitForCommunicating(timeout) && x >= 0 {
					mu.Lock()
					early++
					mu.Unlock()
				}
			}()
		}
		s.p.Send(ref.DataMsg(s.e.Session, 1, 13, true, s.p.NextSys(), ref.Lst()))
		if !mon.Within(mon.Hang, wg.Wait) {
			if s.p.Closed() || s.G.State() != gem.CommunicationStateCommunicating {
				c.Inconclusive("%s: the connection did not last", label)
			} else {
				s.fail("waiter", "callers that began to wait as communication was established are still waiting %v later", mon.Hang)
			}
			return
		}
		if early > 0 {
			s.fail("waiter", "%d callers gave up long before their timeout", early)
		}
		c.Count("waiters released as communication began", workers)
		if !mon.Within(mon.Hang, s.G.Disable) {
			s.fail("disable-hangs", "Disable did not return within %v", mon.Hang)
			return
		}
	}
}

// p22Pair: a library host and a library equipment find each other again after every interruption.
func p22Pair(c *mon.Ctx, label string, i int) {
	s := newGemPair(c, label, func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(2); t.SetT6ControlTransTimeout(5) }, func(o *gem.Options) { o.EstablishCommunicationWait = time.Second })
	if s == nil {
		return
	}
	defer s.close()
	s.E.Enable()
	s.H.Enable()
	for k := 0; k < c.N(4, 20) && !s.isBad(); k++ {
		both := func() bool {
			return s.E.State() == gem.CommunicationStateCommunicating && s.H.State() == gem.CommunicationStateCommunicating
		}
		stableSince := time.Time{}
		ok := mon.Eventually(2*mon.Hang, func() bool {
			if !both() {
				stableSince = time.Time{}
				return false
			}
			if stableSince.IsZero() {
				stableSince = time.Now()
			}
			_, err := s.H.RequestDateTime()
			return err == nil && time.Since(stableSince) > 700*time.Millisecond
		})
		if !ok {
			s.fail("pair", "host and equipment, both enabled, do not communicate within %v: host %v (%s), equipment %v (%s)", 2*mon.Hang, s.H.State(), s.HP.CurrentState(), s.E.State(), s.EP.CurrentState())
			return
		}
		c.Case(fmt.Sprint(label, k), true)
		c.Count("pair: communication established", 1)
		x, y := s.E, s.H
		if s.r.Intn(2) == 0 {
			x, y = y, x
		}
		pause := time.Duration(s.r.Intn(700)) * time.Millisecond
		s.note("disable for %v", pause)
		if !mon.Within(mon.Hang, x.Disable) {
			s.fail("disable-hangs", "Disable did not return")
			return
		}
		if x.State() == gem.CommunicationStateCommunicating {
			s.fail("disabled", "communicating after Disable")
		}
		if s.r.Intn(2) == 0 && !mon.Eventually(mon.Hang, func() bool { return y.State() != gem.CommunicationStateCommunicating }) {
			s.fail("not-lost", "the other side was disabled, and the state is still communicating")
		}
		time.Sleep(pause)
		x.Enable()
	}
}
