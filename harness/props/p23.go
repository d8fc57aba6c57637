package props

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P23", Race: true, Run: p23,
		Rule: "one case is one operation on the control model (a machine call, an operator switch, S1F15/S1F17, an attempt-online outcome, a loss of communication) with state, answer and reported changes compared with the model, or one concurrent history judged as a whole; distinct by state, operation and outcome for the machine, by label and number otherwise",
		Assume: []string{"the library's policies count as configuration of the model: a handler made ATTEMPT_ONLINE or ONLINE starts EQUIPMENT_OFFLINE, establishing communication in EQUIPMENT_OFFLINE starts an attempt, a failed attempt leads to HOST_OFFLINE, losing communication leads from ONLINE and ATTEMPT_ONLINE to EQUIPMENT_OFFLINE, HOST_OFFLINE outlasts it",
			"the operator's switch to off-line in HOST_OFFLINE or ATTEMPT_ONLINE is unspecified as long as it is consistent; so is the outcome of an attempt whose connection breaks as it starts",
			"concurrent changes may be reported in any order, but each once and as one path from the first state to the last"}})
}

const (
	cEQ = gem.ControlStateEquipmentOffline
	cAT = gem.ControlStateAttemptOnline
	cHO = gem.ControlStateHostOffline
	cOL = gem.ControlStateOnlineLocal
	cOR = gem.ControlStateOnlineRemote
)

// ctlModel is the reference control model.
type ctlModel struct {
	st   gem.ControlState
	mode gem.OnlineControlMode
}

func (m *ctlModel) online() bool { return m.st == cOL || m.st == cOR }

func (m *ctlModel) goOnline() {
	m.st = cOR
	if m.mode == gem.OnlineModeLocal {
		m.st = cOL
	}
}

var ctlOps = []string{"SwitchOnline", "SwitchOffline", "Local", "Remote", "FailEquipment", "FailHost", "Success", "RemoteOffline", "RemoteOnline", "Start"}

// do applies an operation; ok false: not allowed. any: unspecified.
func (m *ctlModel) do(op string) (ok, free bool) {
	was := m.st
	switch op {
	case "Start":
		return true, false
	case "SwitchOnline":
		if was == cEQ {
			m.st = cAT
		}
		return was == cEQ || was == cAT, false
	case "SwitchOffline":
		if m.online() {
			m.st = cEQ
		}
		return was == cOL || was == cOR, was == cHO || was == cAT
	case "Local":
		if m.online() {
			m.st, m.mode = cOL, gem.OnlineModeLocal
		}
		return was == cOL || was == cOR, false
	case "Remote":
		if m.online() {
			m.st, m.mode = cOR, gem.OnlineModeRemote
		}
		return was == cOL || was == cOR, false
	case "FailEquipment":
		if was == cAT {
			m.st = cEQ
		}
		return was == cAT || was == cEQ, false
	case "FailHost":
		if was == cAT {
			m.st = cHO
		}
		return was == cAT || was == cHO, false
	case "Success":
		if was == cAT {
			m.goOnline()
		}
		return was == cAT || m.online(), false
	case "RemoteOffline":
		if m.online() {
			m.st = cHO
		}
		return was == cOL || was == cOR, false
	case "RemoteOnline":
		if was == cHO {
			m.goOnline()
		}
		return was == cHO, false
	}
	panic(op)
}

func machineDo(sm *gem.ControlStateMachine, op string) error {
	switch op {
	case "SwitchOnline":
		return sm.SwitchOnline()
	case "SwitchOffline":
		return sm.SwitchOffline()
	case "Local":
		return sm.SwitchOnlineLocal()
	case "Remote":
		return sm.SwitchOnlineRemote()
	case "FailEquipment":
		return sm.AttemptOnlineFailEquipmentOffline()
	case "FailHost":
		return sm.AttemptOnlineFailHostOffline()
	case "Success":
		return sm.AttemptOnlineSuccess()
	case "RemoteOffline":
		return sm.RemoteOffline()
	case "RemoteOnline":
		return sm.RemoteOnline()
	}
	sm.Start()
	return nil
}

var ctlInitials = []gem.ControlState{"", cEQ, cAT, cHO, gem.ControlStateOnline, cOL, "bogus", gem.ControlStateInit}
var ctlModes = []gem.OnlineControlMode{"", gem.OnlineModeLocal, gem.OnlineModeRemote, "local"}

// initialModel is the state a machine of these options starts in.
func initialModel(st gem.ControlState, mode gem.OnlineControlMode) ctlModel {
	m := ctlModel{st: cAT, mode: gem.OnlineModeRemote}
	if mode == gem.OnlineModeLocal {
		m.mode = mode
	}
	switch st {
	case cEQ, cHO:
		m.st = st
	case gem.ControlStateOnline:
		m.goOnline()
	}
	return m
}

// p23Machine runs operation sequences on the bare state machine.
func p23Machine(c *mon.Ctx, label string, initial gem.ControlState, mode gem.OnlineControlMode, depth, random int) {
	seen := map[string]bool{}
	run := func(ops []int) bool {
		sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: initial, InitialOnlineMode: mode})
		m := initialModel(initial, mode)
		if sm.State() != m.st || sm.OnlineMode() != m.mode {
			c.Violate("initial", nil, "%s: a machine made %q/%q starts in %s/%s, want %s/%s", label, initial, mode, sm.State(), sm.OnlineMode(), m.st, m.mode)
			return false
		}
		for k, o := range ops {
			op := ctlOps[o]
			before := m
			ok, free := m.do(op)
			err := machineDo(sm, op)
			st, md := sm.State(), sm.OnlineMode()
			seen[fmt.Sprint(before, op, err == nil, st, md)] = true
			if free && err == nil && st == cEQ {
				m.st = cEQ
				continue
			}
			if st != m.st || md != m.mode || ok != (err == nil) || err != nil && !errors.Is(err, gem.ErrInvalidControlTransition) || sm.IsOnlineState() != m.online() {
				var names []string
				for _, x := range ops[:k+1] {
					names = append(names, ctlOps[x])
				}
				c.Violate("machine:"+op, map[string]any{"initial": initial, "mode": mode, "ops": names},
					"%s: after %v the machine is %s/%s (online %v), %s gives %v; want %s/%s, allowed %v", label, names, st, md, sm.IsOnlineState(), op, err, m.st, m.mode, ok)
				return false
			}
		}
		c.Count("machine operations", len(ops))
		return true
	}
	ops := make([]int, depth)
	for {
		if !run(ops) {
			return
		}
		i := 0
		for ; i < depth; i++ {
			if ops[i]++; ops[i] < len(ctlOps) {
				break
			}
			ops[i] = 0
		}
		if i == depth {
			break
		}
	}
	r := c.Rng(label)
	for k := 0; k < random; k++ {
		long := make([]int, 50)
		for i := range long {
			long[i] = r.Intn(len(ctlOps))
		}
		if !run(long) {
			return
		}
	}
	for k := range seen {
		c.Case(label+k, true)
	}
}

type ctlEvent struct {
	prev, next gem.ControlState
	mode       gem.OnlineControlMode
	at         time.Time
}

// ctlRun is an equipment with a raw host, and the model of its control state.
type ctlRun struct {
	*gemRig
	m        ctlModel
	want     []ctlEvent
	muE      sync.Mutex
	got      []ctlEvent
	badEvent string
	unseen   []int // wanted changes made while the next connection came up: reported in either order

	muG     sync.Mutex
	gate    bool
	pending []func()
	policy  string // for S1F1: answer, abort, wrong, ignore, hold
	held    []func()
	heldAt  []time.Time
	s1f1    atomic.Int64
	comm    bool
	t3      int
	fails   bool // quick handling, no settling
}

func (s *ctlRun) hook(p *peer.Peer, m ref.Msg) bool {
	s.muG.Lock()
	defer s.muG.Unlock()
	if m.PType == 0 && m.SType == ref.SelectReq {
		if !s.gate {
			s.pending = append(s.pending, func() { p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys)) })
		}
		return !s.gate
	}
	if m.PType == 0 && m.SType == ref.Data && m.Stream() == 1 && m.Function() == 1 {
		s.s1f1.Add(1)
		re := func(f int, it ref.Item) { p.Send(ref.DataMsg(m.Session, 1, f, false, m.Sys, it)) }
		switch s.policy {
		case "answer":
			re(2, ref.Lst())
		case "abort":
			re(0, ref.Item{})
		case "wrong":
			re(4, ref.Lst())
		case "hold":
			s.held = append(s.held, func() { re(2, ref.Lst()) })
			s.heldAt = append(s.heldAt, time.Now())
		case "random":
			switch rand.Intn(4) {
			case 0:
				re(0, ref.Item{})
			default:
				re(2, ref.Lst())
			}
		}
		return true
	}
	return gemPeer(p, m)
}

func (s *ctlRun) setPolicy(p string) {
	s.muG.Lock()
	s.policy = p
	s.muG.Unlock()
}

func (s *ctlRun) setGate(open bool) {
	s.muG.Lock()
	defer s.muG.Unlock()
	s.gate = open
	if open {
		for _, f := range s.pending {
			f()
		}
	}
	s.pending = nil
}

func (s *ctlRun) onEvent(d map[string]any) {
	e := ctlEvent{at: time.Now()}
	var ok1, ok2, ok3 bool
	e.prev, ok1 = d["previous"].(gem.ControlState)
	e.next, ok2 = d["current"].(gem.ControlState)
	e.mode, ok3 = d["mode"].(gem.OnlineControlMode)
	s.muE.Lock()
	defer s.muE.Unlock()
	s.got = append(s.got, e)
	if !ok1 || !ok2 || !ok3 || d["handler"] != any(s.G) {
		s.badEvent = fmt.Sprint(d)
	}
}

// move is a change the model prescribes.
func (s *ctlRun) move(to gem.ControlState) {
	if s.m.st != to {
		s.want = append(s.want, ctlEvent{s.m.st, to, s.m.mode, time.Time{}})
		s.m.st = to
	}
}

func (s *ctlRun) moveOnline() {
	m := s.m
	m.goOnline()
	s.move(m.st)
}

// settle waits for the model's state and compares the reported changes.
func (s *ctlRun) settle(what string) bool {
	same := func() (bool, string) {
		s.muE.Lock()
		defer s.muE.Unlock()
		if s.badEvent != "" {
			return false, "a change was reported with " + s.badEvent
		}
		for _, i := range s.unseen {
			for j := i; j < len(s.got); j++ {
				if e := s.got[j]; e.prev == s.want[i].prev && e.next == s.want[i].next {
					if j > i {
						s.c.Count("a loss reported after the next attempt", 1)
					}
					copy(s.got[i+1:j+1], s.got[i:j])
					s.got[i] = e
					break
				}
			}
		}
		for i, e := range s.got {
			if i >= len(s.want) {
				return false, fmt.Sprintf("the change %v was reported, too", e)
			}
			if e.prev != s.want[i].prev || e.next != s.want[i].next {
				return false, fmt.Sprintf("the change %v was reported, want %v", e, s.want[i])
			}
		}
		if len(s.got) < len(s.want) {
			return false, fmt.Sprintf("the change %v was not reported", s.want[len(s.got)])
		}
		if st := s.G.ControlState(); st != s.m.st {
			return false, fmt.Sprintf("the state is %s, want %s", st, s.m.st)
		}
		if md := s.G.ControlStateMachine().OnlineMode(); md != s.m.mode {
			return false, fmt.Sprintf("the mode is %s, want %s", md, s.m.mode)
		}
		return true, ""
	}
	var why string
	if !mon.Eventually(mon.Hang, func() bool { var ok bool; ok, why = same(); return ok || s.lost() }) {
		s.fail("state", "after %s: %s", what, why)
		return false
	}
	if s.lost() {
		s.c.Inconclusive("%s: the endpoint closed the connection", s.label)
		return false
	}
	return true
}

func (s *ctlRun) lost() bool { return s.comm && s.p != nil && s.p.Closed() }

// connect establishes communication.
func (s *ctlRun) connect(policy string) bool {
	s.setPolicy(policy)
	s.note("connect, S1F1 policy %s", policy)
	s.setGate(true)
	s.muG.Lock()
	s.held, s.heldAt = nil, nil
	s.muG.Unlock()
	if !s.link() {
		return false
	}
	s.comm = true
	if s.m.st == cEQ {
		s.move(cAT)
		s.attempt(policy)
	}
	return s.settle("communication was established (S1F1: " + policy + ")")
}

// attempt is the outcome of an attempt while communicating.
func (s *ctlRun) attempt(policy string) {
	switch policy {
	case "answer":
		s.moveOnline()
	case "hold":
	default:
		s.move(cHO)
	}
	s.c.Count("attempts on-line: "+policy, 1)
}

// lose breaks the connection.
func (s *ctlRun) lose(settle bool) bool {
	s.setGate(false)
	how := []string{"close", "reset", "separate", "deselect", "disable"}[s.r.Intn(5)]
	s.note("connection lost: %s", how)
	s.comm = false
	switch how {
	case "close":
		s.p.Close()
	case "reset":
		s.p.Reset()
	case "separate":
		s.p.Send(ref.Ctrl(ref.SeparateReq, s.e.Session, s.p.NextSys()))
	case "deselect":
		s.p.Send(ref.Ctrl(ref.DeselectReq, s.e.Session, s.p.NextSys()))
		if s.r.Intn(2) == 0 && mon.Eventually(mon.Hang, func() bool { return s.G.State() != gem.CommunicationStateCommunicating }) {
			defer s.p.Close()
		} else {
			s.p.Close()
		}
	case "disable":
		if !mon.Within(mon.Hang, s.G.Disable) {
			s.fail("disable-hangs", "Disable did not return within %v", mon.Hang)
			return false
		}
		defer s.G.Enable()
	}
	s.c.Count("communication lost", 1)
	if s.m.st == cAT {
		// The S1F1 under way may still time out before the loss is noticed, or not have been
		// sent yet: on a slow machine that takes seconds.
		early := s.heldFor() == 0
		sent := time.Now().Add(-s.heldFor())
		if !mon.Eventually(mon.Hang, func() bool { return s.G.ControlState() != cAT }) {
			s.fail("not-lost", "still ATTEMPT_ONLINE, the communication is lost (%s)", how)
			return false
		}
		mon.Eventually(mon.Hang, func() bool {
			s.muE.Lock()
			defer s.muE.Unlock()
			return len(s.got) > len(s.want)
		})
		s.muE.Lock()
		to := cEQ
		if n := len(s.want); n < len(s.got) && s.got[n].next == cHO && (early || s.got[n].at.Sub(sent) > time.Duration(s.t3-3)*time.Second) {
			to = cHO
		}
		s.muE.Unlock()
		s.move(to)
		settle = true
	} else if s.m.online() {
		s.move(cEQ)
	}
	if !settle && how != "separate" {
		if n := len(s.want); n > 0 && s.want[n-1].next == cEQ {
			s.unseen = append(s.unseen, n-1)
		}
		return true // the next connection comes before the loss is noticed, or not
	}
	if !mon.Eventually(mon.Hang, func() bool { return s.G.State() != gem.CommunicationStateCommunicating }) {
		s.fail("not-lost", "communication is not lost (%s)", how)
		return false
	}
	return s.settle("communication was lost (" + how + ")")
}

func (s *ctlRun) ack(function int) (int, bool) {
	it, ok := s.ask(1, function, ref.Item{})
	if !ok {
		return 0, false
	}
	a := ack1(it)
	if a < 0 {
		s.fail("ack", "S1F%d is answered with %s", function, it)
	}
	return a, a >= 0
}

// op does one operation in the present state.
func (s *ctlRun) op() bool {
	r := s.r
	was := s.m.st
	what := ""
	switch k := r.Intn(12); {
	case k < 2 && s.comm:
		a, ok := s.ack(15)
		if !ok {
			return false
		}
		what = fmt.Sprintf("S1F15 in %s, answered %d", was, a)
		if a != 0 {
			s.fail("oflack", "%s", what)
			return false
		}
		if s.m.online() {
			s.move(cHO)
		}
	case k < 5 && s.comm:
		a, ok := s.ack(17)
		if !ok {
			return false
		}
		what = fmt.Sprintf("S1F17 in %s, answered %d", was, a)
		want := 1
		if was == cHO {
			want = 0
		} else if s.m.online() {
			want = 2
		}
		if a != want {
			s.fail("onlack", "%s, want %d", what, want)
			return false
		}
		if was == cHO {
			s.moveOnline()
		}
	case k < 7:
		policy := "answer"
		if s.comm {
			policy = []string{"answer", "answer", "answer", "abort", "wrong"}[r.Intn(5)]
			if was != cAT {
				s.setPolicy(policy)
			}
		} else {
			policy = "no communication"
		}
		err := s.G.SwitchControlOnline()
		what = fmt.Sprintf("SwitchControlOnline in %s (S1F1: %s): %v", was, policy, err)
		if (err != nil) != (was == cHO) || err != nil && !errors.Is(err, gem.ErrInvalidControlTransition) {
			s.fail("switch", "%s", what)
			return false
		}
		if was == cEQ {
			s.move(cAT)
			s.attempt(policy)
		}
	case k < 8:
		err := s.G.SwitchControlOffline()
		what = fmt.Sprintf("SwitchControlOffline in %s: %v", was, err)
		if s.m.online() {
			if err != nil {
				s.fail("switch", "%s", what)
				return false
			}
			s.move(cEQ)
		} else if (was == cHO || was == cAT) && err == nil && s.G.ControlState() == cEQ {
			s.move(cEQ)
		}
	default:
		local := r.Intn(2) == 0
		var err error
		if local {
			err = s.G.SwitchControlOnlineLocal()
		} else {
			err = s.G.SwitchControlOnlineRemote()
		}
		what = fmt.Sprintf("switch to local %v in %s: %v", local, was, err)
		if (err == nil) != s.m.online() || err != nil && !errors.Is(err, gem.ErrInvalidControlTransition) {
			s.fail("switch", "%s", what)
			return false
		}
		if s.m.online() {
			s.m.mode = gem.OnlineModeRemote
			if local {
				s.m.mode = gem.OnlineModeLocal
			}
			s.moveOnline()
		}
	}
	s.note("%s", what)
	s.c.Count("operations in "+string(was), 1)
	return s.settle(what)
}

func newCtlRun(c *mon.Ctx, label, kind string, initial gem.ControlState, mode gem.OnlineControlMode, t3 int) *ctlRun {
	g := newGemRig(c, label, kind, func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(t3) },
		func(o *gem.Options) { o.InitialControlState, o.InitialOnlineMode = initial, mode })
	if g == nil {
		return nil
	}
	s := &ctlRun{gemRig: g, m: initialModel(initial, mode), gate: true, policy: "answer", t3: t3}
	if s.m.st != cHO {
		s.m.st = cEQ
	}
	g.e.setHook(s.hook)
	if st := s.G.ControlState(); st != s.m.st || s.G.ControlStateMachine().OnlineMode() != s.m.mode {
		s.fail("initial", "an equipment made %q/%q starts in %s/%s, want %s/%s", initial, mode, st, s.G.ControlStateMachine().OnlineMode(), s.m.st, s.m.mode)
	}
	s.G.Events().ControlStateChanged.AddCallback(s.onEvent)
	return s
}

// p23Seq: one operation after the other, everything compared.
func p23Seq(c *mon.Ctx, label string, i int) {
	r0 := c.Rng(label + "cfg")
	s := newCtlRun(c, label, []string{"equipment passive", "equipment active"}[i%2], ctlInitials[i%len(ctlInitials)], ctlModes[r0.Intn(len(ctlModes))], 2)
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	for n := r.Intn(4); n > 0 && !s.isBad(); n-- {
		if !s.op() {
			return
		}
	}
	s.G.Enable()
	for k := 0; k < c.N(5, 25) && !s.isBad(); k++ {
		policy := []string{"answer", "answer", "answer", "abort", "wrong", "ignore", "hold"}[r.Intn(7)]
		if !s.connect(policy) {
			return
		}
		for n := 10 + r.Intn(30); n > 0 && !s.isBad(); n-- {
			if s.m.st == cAT && policy == "hold" {
				// the attempt is under way: other operations, and then its end
				if r.Intn(4) > 0 {
					if s.heldFor() > 1200*time.Millisecond {
						s.letGo()
					} else if !s.op() {
						return
					}
				} else if r.Intn(3) == 0 {
					break // lost in the middle of it
				} else {
					s.letGo()
				}
				continue
			}
			c.Case(fmt.Sprint(label, k, n), true)
			if !s.op() {
				return
			}
		}
		if s.isBad() || !s.lose(r.Intn(3) > 0) {
			return
		}
		if r.Intn(3) == 0 {
			// an attempt without communication fails. Only when the loss is known
			if !mon.Eventually(mon.Hang, func() bool { return s.G.State() != gem.CommunicationStateCommunicating }) {
				s.fail("not-lost", "communication is not lost")
				return
			}
			for n := r.Intn(5); n > 0 && s.settle("the loss"); n-- {
				if !s.op() {
					return
				}
			}
		}
	}
	time.Sleep(300 * time.Millisecond)
	if !s.isBad() && s.settle("the end") && i == 0 {
		c.Sample(map[string]any{"case": label, "last": s.hist[max(0, len(s.hist)-10):], "changes": len(s.got)})
	}
}

// heldFor is how long the oldest unanswered S1F1 has waited.
func (s *ctlRun) heldFor() time.Duration {
	s.muG.Lock()
	defer s.muG.Unlock()
	if len(s.heldAt) == 0 {
		return 0
	}
	return time.Since(s.heldAt[0])
}

// letGo answers the held S1F1, unless that may be too late.
func (s *ctlRun) letGo() {
	if !mon.Eventually(mon.Hang, func() bool { return s.heldFor() > 0 }) {
		s.fail("no-s1f1", "ATTEMPT_ONLINE, communicating, but no S1F1 comes")
		return
	}
	s.muG.Lock()
	late := time.Since(s.heldAt[0]) > 1400*time.Millisecond
	if !late {
		for _, f := range s.held {
			f()
		}
		s.policy = "answer"
	}
	s.held, s.heldAt = nil, nil
	s.muG.Unlock()
	if late {
		s.note("the held S1F1 is left to time out")
		s.move(cHO)
		s.settle("S1F1 timed out")
		return
	}
	s.note("the held S1F1 is answered")
	s.moveOnline()
	s.settle("the held S1F1 was answered")
	s.c.Count("operations during an attempt: ended", 1)
}

// p23Stale: an attempt left over from a lost connection must not decide the one on the next.
func p23Stale(c *mon.Ctx, label string, i int) {
	const t3 = 6
	s := newCtlRun(c, label, []string{"equipment passive", "equipment active"}[i%2], cEQ, ctlModes[i/2%2+1], t3)
	if s == nil {
		return
	}
	defer s.close()
	s.G.Enable()
	if !s.connect("hold") {
		return
	}
	if !mon.Eventually(mon.Hang, func() bool { return s.heldFor() > 0 }) {
		s.fail("no-s1f1", "ATTEMPT_ONLINE, communicating, but no S1F1 comes")
		return
	}
	t0 := time.Now().Add(-s.heldFor())
	if !s.lose(true) {
		return
	}
	time.Sleep(time.Until(t0.Add(3 * time.Second)))
	if !s.connect("hold") {
		return
	}
	if !mon.Eventually(mon.Hang, func() bool { return s.heldFor() > 0 }) {
		s.fail("no-s1f1", "ATTEMPT_ONLINE again, communicating, but no S1F1 comes")
		return
	}
	time.Sleep(time.Until(t0.Add(t3*time.Second + 400*time.Millisecond)))
	s.c.Case(label, true)
	if !s.settle("the attempt of the lost connection timed out") {
		return
	}
	s.muG.Lock()
	f, at := s.held[len(s.held)-1], s.heldAt[len(s.heldAt)-1]
	s.muG.Unlock()
	if time.Since(at) > (t3-2)*time.Second {
		c.Inconclusive("%s: too slow", label)
		return
	}
	s.note("the S1F1 of the second connection is answered")
	f()
	s.moveOnline()
	s.settle("the S1F1 of the second connection was answered")
	c.Count("attempts outlived by an older one", 1)
}

var ctlEdges = map[[2]gem.ControlState]bool{
	{cEQ, cAT}: true, {cAT, cEQ}: true, {cAT, cHO}: true, {cAT, cOL}: true, {cAT, cOR}: true,
	{cOL, cOR}: true, {cOR, cOL}: true, {cOL, cEQ}: true, {cOR, cEQ}: true, {cOL, cHO}: true, {cOR, cHO}: true,
	{cHO, cOL}: true, {cHO, cOR}: true, {cHO, cEQ}: true,
}

// p23Storm: everything at once; the reported changes must form one path.
func p23Storm(c *mon.Ctx, label string, i int) {
	r0 := c.Rng(label + "cfg")
	s := newCtlRun(c, label, []string{"equipment passive", "equipment active"}[i%2], ctlInitials[r0.Intn(4)], ctlModes[r0.Intn(4)], 1)
	if s == nil {
		return
	}
	defer s.close()
	start := s.m.st
	s.setPolicy("random")
	s.G.Enable()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var toOnline, s1f17 atomic.Int64
	for w := 0; w < 4; w++ {
		wg.Add(1)
		r := c.Rng(fmt.Sprint(label, "w", w))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				switch r.Intn(5) {
				case 0, 1:
					s.G.SwitchControlOnline()
				case 2:
					s.G.SwitchControlOffline()
				case 3:
					s.G.SwitchControlOnlineLocal()
				case 4:
					s.G.SwitchControlOnlineRemote()
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			}
		}()
	}
	for k := 0; k < c.N(3, 20) && !s.isBad(); k++ {
		if !s.link() {
			break
		}
		p := s.p
		seen := map[uint32]int{}
		end := time.Now().Add(time.Duration(200+s.r.Intn(900)) * time.Millisecond)
		for time.Now().Before(end) && !p.Closed() {
			for n := s.r.Intn(6); n >= 0; n-- {
				f := 15 + 2*s.r.Intn(2)
				sys := p.NextSys()
				seen[sys] = f
				if f == 17 {
					s1f17.Add(1)
				}
				p.Send(ref.DataMsg(s.e.Session, 1, f, true, sys, ref.Item{}))
			}
			time.Sleep(time.Duration(s.r.Intn(4000)) * time.Microsecond)
		}
		if !p.Linktest(mon.Hang) && !p.Closed() {
			s.fail("stuck", "linktest is not answered")
			break
		}
		for _, m := range p.Data() {
			f, ok := seen[m.Sys]
			if !ok || m.W() {
				continue
			}
			it, err := m.Item()
			a := ack1(it)
			if err != nil || m.Function() != f+1 || f == 15 && a != 0 && a != 1 || f == 17 && a != 0 && a != 1 && a != 2 {
				s.fail("ack", "S1F%d is answered with S1F%d %s", f, m.Function(), it)
			}
			if f == 17 && a == 0 {
				toOnline.Add(1)
			}
			delete(seen, m.Sys)
		}
		if len(seen) > 0 && !p.Closed() {
			s.fail("no-ack", "%d of the S1F15/S1F17 are not answered", len(seen))
		}
		if k%2 == 0 {
			p.Close()
		} else {
			p.Reset()
		}
	}
	close(stop)
	if !mon.Within(mon.Hang, wg.Wait) {
		s.fail("stuck", "an operator's switch does not return\n%s", mon.LibStacks())
		return
	}
	if s.isBad() {
		return
	}
	s.setPolicy("answer")
	if !s.link() {
		return
	}
	// an attempt ends
	if !mon.Eventually(mon.Hang, func() bool { return s.G.ControlState() != cAT }) {
		s.fail("attempt-stuck", "ATTEMPT_ONLINE for %v with a host that answers S1F1 (%d came)", mon.Hang, s.s1f1.Load())
		return
	}
	// quiet: nothing reported any more, and what was makes one path
	var n int
	mon.Eventually(mon.Hang, func() bool {
		s.muE.Lock()
		now := len(s.got)
		s.muE.Unlock()
		same := now == n
		n = now
		if same {
			time.Sleep(1500 * time.Millisecond) // T3 of attempts under way
			s.muE.Lock()
			defer s.muE.Unlock()
			return len(s.got) == n
		}
		time.Sleep(200 * time.Millisecond)
		return false
	})
	s.muE.Lock()
	defer s.muE.Unlock()
	final := s.G.ControlState()
	deg := map[gem.ControlState]int{}
	adj := map[gem.ControlState][]gem.ControlState{}
	ho := int64(0)
	for _, e := range s.got {
		if !ctlEdges[[2]gem.ControlState{e.prev, e.next}] {
			s.fail("edge", "a change from %s to %s was reported", e.prev, e.next)
			return
		}
		deg[e.prev]++
		deg[e.next]--
		adj[e.prev] = append(adj[e.prev], e.next)
		if e.prev == cHO && e.next != cEQ {
			ho++
		}
		c.Case(fmt.Sprint(e.prev, e.next), true)
	}
	deg[start]--
	deg[final]++
	for st, d := range deg {
		if d != 0 {
			s.fail("path", "the %d reported changes make no path from %s to %s: %s is left %+d times more often than entered\n%v", len(s.got), start, final, st, d, edgeCounts(s.got))
			return
		}
	}
	reach := map[gem.ControlState]bool{start: true}
	for todo := []gem.ControlState{start}; len(todo) > 0; todo = todo[1:] {
		for _, n := range adj[todo[0]] {
			if !reach[n] {
				reach[n] = true
				todo = append(todo, n)
			}
		}
	}
	for st := range adj {
		if !reach[st] {
			s.fail("path", "the reported changes make no path from %s: %s is out of reach", start, st)
			return
		}
	}
	if ho < toOnline.Load() || ho > s1f17.Load() {
		s.fail("onlack", "%d S1F17 were sent, %d answered 0, but %d changes from HOST_OFFLINE to ONLINE reported", s1f17.Load(), toOnline.Load(), ho)
	}
	c.Count("changes in concurrent histories", len(s.got))
	c.Count("concurrent histories", 1)
}

func edgeCounts(es []ctlEvent) map[string]int {
	m := map[string]int{}
	for _, e := range es {
		m[string(e.prev)+">"+string(e.next)]++
	}
	return m
}

func p23(c *mon.Ctx) {
	var jobs []gemJob
	for a, st := range ctlInitials {
		for b, md := range ctlModes {
			jobs = append(jobs, gemJob{fmt.Sprintf("machine-%d-%d", a, b), func(label string, _ int) {
				p23Machine(c, label, st, md, c.N(4, 5), c.N(300, 5000))
			}, 0})
		}
	}
	jobs = addJobs(jobs, "stale", c.N(8, 16), func(label string, i int) { p23Stale(c, label, i) })
	jobs = addJobs(jobs, "seq", c.N(64, 240), func(label string, i int) { p23Seq(c, label, i) })
	jobs = addJobs(jobs, "storm", c.N(32, 96), func(label string, i int) { p23Storm(c, label, i) })
	gemJobs(c, 160, jobs)
}
