package props

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P15", Race: true, Run: p15,
		Rule: "control sequences played against live endpoints of both roles with a reference HSMS state machine in lockstep; a case is one step; non-trivial when the step is not a linktest or when the endpoint is selected; distinct by role, session configuration and the sequence up to and including the step",
		Assume: []string{"a linktest response is a barrier: the endpoint processes one connection's messages in order",
			"left open: the status of select.req while selected and of deselect.req while not selected, and whether separate.req while not selected closes the connection"}})
}

// the alphabet of the exhaustive part
var p15Short = []string{"select", "deselect", "linktest", "data", "send", "unsolicited-select.rsp", "unsolicited-deselect.rsp", "separate"}

var p15All = append([]string{"select-wildcard", "select-other", "unsolicited-linktest.rsp", "reject", "unknown-stype", "unknown-ptype", "fin", "rst", "data-W", "select-twice", "select-rsp-refused", "ctrl-with-data-sys"}, p15Short...)

type p15Run struct {
	c       *mon.Ctx
	label   string
	e       *ep
	p       *peer.Peer
	sel     bool
	up      bool
	hist    []string
	mu      sync.Mutex
	handled map[string]int
	serial  uint64
	selReq  *ref.Msg // the active endpoint's open select request
	failed  bool
}

func p15(c *mon.Ctx) {
	// every sequence of up to three (thorough: four) steps
	depth := c.N(3, 4)
	total := 0
	for d, n := 1, len(p15Short); d <= depth; d, n = d+1, n*len(p15Short) {
		total += n
	}
	const parts = 8
	mon.Parallel(parts, parts, func(part int) {
		label := fmt.Sprintf("short-%d", part)
		if c.Skip(label) {
			return
		}
		defer c.Begin(label)()
		active := part%2 == 0
		s := p15New(c, label, active, 77)
		if s == nil {
			return
		}
		defer s.e.close()
		for i := part / 2; i < total && c.Violations() < 6; i += parts / 2 {
			seq := p15Decode(i)
			s.play(seq, c.Rng(fmt.Sprintf("%s/%d", label, i)), active && i%3 == 0)
		}
	})
	n := c.N(32, 600)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("long-%d", i)
		if c.Skip(label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		active := i%2 == 0
		session := r.Intn(0x7FFF) + 1
		if i%8 < 2 {
			session = []int{0, 0xFFFF}[r.Intn(2)]
		}
		s := p15New(c, label, active, session)
		if s == nil {
			return
		}
		defer s.e.close()
		for k := 0; k < 6 && !s.failed; k++ {
			var seq []string
			for j := 3 + r.Intn(25); j > 0; j-- {
				if r.Intn(3) == 0 {
					seq = append(seq, []string{"select", "data-W", "send"}[r.Intn(3)])
				} else {
					seq = append(seq, p15All[r.Intn(len(p15All))])
				}
			}
			s.play(seq, r, active && r.Intn(3) == 0)
		}
		if i < 3 {
			c.Sample(map[string]any{"case": label, "role": role(active), "session": session, "sequence": s.hist})
		}
	})
}

func p15Decode(i int) []string {
	n := len(p15Short)
	for d, size := 1, n; ; d, size = d+1, size*n {
		if i < size {
			var out []string
			for ; d > 0; d-- {
				out = append(out, p15Short[i%n])
				i /= n
			}
			return out
		}
		i -= size
	}
}

func p15New(c *mon.Ctx, label string, active bool, session int) *p15Run {
	e, err := newEp(active, uint16(session), nil)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	s := &p15Run{c: c, label: label, e: e, handled: map[string]int{}}
	e.selStatus.Store(-1)
	e.P.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
		w, _ := wireOf(m)
		s.mu.Lock()
		s.handled[p12MsgKey(w)]++
		s.mu.Unlock()
		return dataNode(m.StreamCode(), m.FunctionCode()&^1+2&0xFF, 0, ref.Asc("re")), nil
	})
	e.P.Enable()
	return s
}

func (s *p15Run) fail(key, format string, a ...any) {
	s.failed = true
	var log []string
	if s.p != nil {
		log = s.p.Log(40)
	}
	s.c.Violate(key, map[string]any{"sequence": s.hist, "wire": log}, "%s (%s, session %d) after %v: "+format, append([]any{s.label, role(s.e.Active), s.e.Session, s.hist}, a...)...)
}

// play runs one sequence on a fresh connection.
func (s *p15Run) play(seq []string, r *rand.Rand, refuseFirst bool) {
	s.hist, s.failed = nil, false
	defer func() {
		if s.up && s.p != nil {
			s.p.Close()
			s.waitDown("end of the sequence")
			s.up = false
		}
	}()
	if !s.connect(r, refuseFirst) {
		return
	}
	for _, st := range seq {
		if !s.up && !s.connect(r, false) {
			return
		}
		s.hist = append(s.hist, st)
		s.step(st, r)
		if s.failed {
			return
		}
		s.c.Case(fmt.Sprintf("%s %d %v", role(s.e.Active), s.e.Session, s.hist), st != "linktest" || s.sel)
		s.c.Count("step_"+st, 1)
	}
}

func (s *p15Run) waitDown(why string) {
	if !s.e.Active && !mon.Eventually(mon.Hang, func() bool { return s.e.P.CurrentState() == hsms.StateNotConnected }) {
		s.fail("state-after-loss", "%s: state is still %s", why, s.e.P.CurrentState())
	}
}

func (s *p15Run) connect(r *rand.Rand, refuse bool) bool {
	for try := 0; ; try++ {
		p, err := s.e.connect(mon.Hang)
		if err != nil {
			s.fail("no-connection", "%v", err)
			return false
		}
		s.p, s.sel, s.up, s.selReq = p, false, true, nil
		if !s.e.Active {
			if p.Linktest(mon.Hang) {
				break
			}
			if try < 50 && p.WaitClosed(time.Second) { // the endpoint was replacing its listener
				continue
			}
			s.fail("linktest-unanswered", "no linktest response on a new connection (closed=%v)", p.Closed())
			return false
		}
		m, ok := p.Await(mon.Hang, func(m ref.Msg) bool { return m.SType == ref.SelectReq })
		if !ok {
			s.fail("no-select-request", "the active endpoint sent no select.req on its connection (closed=%v)", p.Closed())
			return false
		}
		if m.Session != s.e.Session && s.e.Session != 0 && s.e.Session != 0xFFFF || m.Byte2 != 0 || m.Byte3 != 0 || m.PType != 0 || len(m.Text) > 0 {
			s.fail("select-request-form", "%s", m)
		}
		s.selReq = &m
		if refuse {
			refuse = false
			s.hist = append(s.hist, "(own select refused)")
			x := ref.Ctrl(ref.SelectRsp, m.Session, m.Sys)
			x.Byte3 = byte(1 + r.Intn(255))
			p.Send(x)
			if !p.WaitClosed(mon.Hang) {
				s.fail("refused-select", "select.rsp with status %d did not end the connection", x.Byte3)
				return false
			}
			s.c.Count("select_refused", 1)
			continue
		}
		switch r.Intn(4) {
		case 0: // leave it open for now
			s.hist = append(s.hist, "(own select open)")
			if !s.barrier() { // the request may overtake the state change it announces
				return false
			}
		case 1: // an answer to something else first
			x := ref.Ctrl(ref.SelectRsp, m.Session, m.Sys+1)
			p.Send(x)
			if !s.barrier() {
				return false
			}
			s.checkState()
			fallthrough
		default:
			p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys))
			s.selReq = nil
			s.sel = true
			s.hist = append(s.hist, "(own select accepted)")
			if !s.barrier() {
				return false
			}
		}
		break
	}
	s.checkState()
	return !s.failed
}

func (s *p15Run) barrier() bool {
	if s.p.Linktest(mon.Hang) {
		return true
	}
	s.fail("linktest-unanswered", "no linktest response (closed=%v)", s.p.Closed())
	return false
}

func (s *p15Run) checkState() {
	want := hsms.StateConnectedNotSelected
	if s.sel {
		want = hsms.StateConnectedSelected
	}
	if got := s.e.P.CurrentState(); got != want {
		s.fail("state", "state is %s, HSMS prescribes %s", got, want)
	}
	if !s.e.P.Connected() {
		s.fail("connected", "Connected() is false on a live connection")
	}
}

// fresh returns what arrived since mark except linktest responses to the barriers.
func (s *p15Run) fresh(mark int, own uint32) (out []ref.Msg) {
	for _, ev := range s.p.ReceivedFrom(mark) {
		if ev.Dir == "rx" && !(ev.Msg.SType == ref.LinktestRsp && ev.Msg.Sys != own) {
			out = append(out, ev.Msg)
		}
	}
	return
}

// answer checks that exactly one response came, of the given type, for the request m.
func (s *p15Run) answer(mark int, m ref.Msg, stype byte, status ...byte) {
	got := s.fresh(mark, m.Sys)
	if len(got) != 1 {
		s.fail("answers", "%s got %d answers: %v", m, len(got), got)
		return
	}
	a := got[0]
	sess := m.Session
	if stype == ref.LinktestRsp {
		sess = 0xFFFF
	}
	if a.SType != stype || a.PType != 0 || a.Sys != m.Sys || a.Session != sess || a.Byte2 != 0 || len(a.Text) > 0 {
		s.fail("answer-form", "%s was answered with %s", m, a)
		return
	}
	for _, st := range status {
		if a.Byte3 == st {
			return
		}
	}
	if len(status) > 0 {
		s.fail("answer-status", "%s was answered with status %d, want %v", m, a.Byte3, status)
	}
}

func (s *p15Run) silent(mark int, what string) {
	if got := s.fresh(mark, 0); len(got) > 0 {
		s.fail("answer-to-nothing", "%s was answered: %v", what, got)
	}
}

func (s *p15Run) ctrl(stype byte, session uint16) ref.Msg {
	return ref.Ctrl(stype, session, s.p.NextSys())
}

func (s *p15Run) closed(what string) {
	if !s.p.WaitClosed(mon.Hang) {
		s.fail("not-closed", "%s did not end the connection", what)
		return
	}
	s.up, s.sel = false, false
	s.waitDown(what)
}

func (s *p15Run) step(st string, r *rand.Rand) {
	p := s.p
	mark := p.Mark()
	switch {
	case st == "select" || st == "select-wildcard" || st == "select-twice":
		sess := s.e.Session
		if st == "select-wildcard" || sess == 0 && r.Intn(2) == 0 {
			sess = 0xFFFF
		}
		m := s.ctrl(ref.SelectReq, sess)
		p.Send(m)
		if !s.barrier() {
			return
		}
		if s.sel {
			s.answer(mark, m, ref.SelectRsp, 0, 1)
		} else {
			s.answer(mark, m, ref.SelectRsp, 0)
		}
		s.sel = true
		if st == "select-twice" {
			s.checkState()
			mark = p.Mark()
			m2 := m
			if r.Intn(2) == 0 {
				m2.Sys = p.NextSys()
			}
			p.Send(m2)
			if !s.barrier() {
				return
			}
			s.answer(mark, m2, ref.SelectRsp, 0, 1)
		}
	case st == "select-other":
		if s.e.Session == 0 || s.e.Session == 0xFFFF {
			return // adopts what the peer uses
		}
		m := s.ctrl(ref.SelectReq, s.e.Session^uint16(1+r.Intn(0x7FFE)))
		if r.Intn(3) == 0 {
			m.Session = 0
		}
		p.Send(m)
		a, ok := p.AwaitFrom(mark, mon.Hang, func(a ref.Msg) bool { return a.SType == ref.SelectRsp })
		if !ok || a.Sys != m.Sys || a.Session != m.Session || a.Byte3 == 0 {
			s.fail("foreign-session", "%s (not this endpoint's session) was answered with %s (%v)", m, a, ok)
			return
		}
		s.closed("a select request refused for its session")
	case st == "deselect":
		m := s.ctrl(ref.DeselectReq, s.e.Session)
		p.Send(m)
		if !s.barrier() {
			return
		}
		if s.sel {
			s.answer(mark, m, ref.DeselectRsp, 0)
		} else {
			s.answer(mark, m, ref.DeselectRsp)
		}
		s.sel = false
	case st == "linktest":
		m := s.ctrl(ref.LinktestReq, 0xFFFF)
		p.Send(m)
		if !s.barrier() {
			return
		}
		s.answer(mark, m, ref.LinktestRsp, 0)
	case st == "separate":
		was := s.sel
		p.Send(s.ctrl(ref.SeparateReq, s.e.Session))
		if !was && !p.WaitClosed(30*time.Millisecond) {
			// left open: it may be ignored while not selected
			if p.Linktest(mon.Hang) {
				s.checkState()
				return
			}
		}
		s.closed("separate.req")
	case strings.HasPrefix(st, "unsolicited-") || st == "reject":
		t := map[string]byte{"unsolicited-select.rsp": ref.SelectRsp, "unsolicited-deselect.rsp": ref.DeselectRsp, "unsolicited-linktest.rsp": ref.LinktestRsp, "reject": ref.RejectReq}[st]
		m := s.ctrl(t, s.e.Session)
		if r.Intn(3) == 0 {
			m.Byte3 = byte(r.Intn(5))
		}
		if t == ref.RejectReq {
			m.Byte2, m.Byte3 = byte(r.Intn(10)), byte(1+r.Intn(4))
		}
		p.Send(m)
		if !s.barrier() {
			return
		}
		s.silent(mark, st)
	case st == "select-rsp-refused":
		if s.selReq == nil {
			return
		}
		x := ref.Ctrl(ref.SelectRsp, s.selReq.Session, s.selReq.Sys)
		x.Byte3 = byte(1 + r.Intn(255))
		p.Send(x)
		s.closed("a refusing select.rsp")
	case st == "unknown-stype" || st == "unknown-ptype":
		m := s.ctrl(ref.LinktestReq, s.e.Session)
		if st == "unknown-stype" {
			m.SType = []byte{8, 10, 11, 127, 128, 255}[r.Intn(6)]
		} else {
			m.PType = byte(1 + r.Intn(255))
		}
		p.Send(m)
		// HSMS allows a reject; this implementation treats it as undecodable and ends the connection
		if !p.WaitClosed(100 * time.Millisecond) {
			if p.Linktest(mon.Hang) {
				for _, a := range s.fresh(mark, 0) {
					if a.SType != ref.RejectReq || a.Sys != m.Sys {
						s.fail("unsupported-type", "%s was answered with %s", m, a)
					}
				}
				s.checkState()
				return
			}
		}
		s.closed(st)
	case st == "fin":
		p.Close()
		s.closed(st)
	case st == "rst":
		p.Reset()
		s.closed(st)
	case st == "data" || st == "data-W" || st == "ctrl-with-data-sys":
		s.serial++
		m := ref.DataMsg(s.e.Session, 1+r.Intn(8), 1+2*r.Intn(50), st != "data", p.NextSys(), ref.Lst(ref.Asc(s.label), ref.Uint(ref.U4, s.serial)))
		p.Send(m)
		var extra ref.Msg
		if st == "ctrl-with-data-sys" {
			extra = ref.Ctrl(ref.LinktestReq, 0xFFFF, m.Sys)
			p.Send(extra)
		}
		if !s.barrier() {
			return
		}
		s.mu.Lock()
		n := s.handled[p12MsgKey(m)]
		s.mu.Unlock()
		var ans []ref.Msg
		links := 0
		for _, a := range s.fresh(mark, m.Sys) {
			if a.SType == ref.Data {
				ans = append(ans, a)
			} else if a.SType == ref.LinktestRsp {
				links++
			} else if a.SType != ref.RejectReq || s.sel { // "data message in non-selected state" may be rejected
				s.fail("answer-form", "%s was answered with %s", m, a)
			}
		}
		if extra.Sys != 0 && links != 1 {
			s.fail("answers", "%s got %d answers", extra, links)
		}
		if s.sel {
			if n != 1 {
				s.fail("data-while-selected", "%s reached the handler %d times", m, n)
			}
			if m.W() && (len(ans) != 1 || ans[0].Sys != m.Sys) || !m.W() && len(ans) != 0 {
				s.fail("data-while-selected", "%s was answered with %v", m, ans)
			}
		} else if n != 0 || len(ans) != 0 {
			s.fail("data-while-not-selected", "%s reached the handler %d times and was answered with %v", m, n, ans)
		}
	case st == "send":
		s.serial++
		body := ref.Lst(ref.Asc("send "+s.label), ref.Uint(ref.U4, s.serial))
		call := []string{"SendDataMessage", "SendDataMessage", "SendResponse", "SendAndWait"}[r.Intn(4)]
		if s.sel && call == "SendAndWait" {
			call = "SendResponse"
		}
		sys := uint32(0)
		var err error
		switch call {
		case "SendDataMessage":
			err = s.e.P.SendDataMessage(dataNode(6, 11, 0, body))
		case "SendResponse":
			sys = p.NextSys()
			err = s.e.P.SendResponse(dataNode(6, 12, 0, body), []byte{byte(sys >> 24), byte(sys >> 16), byte(sys >> 8), byte(sys)})
		case "SendAndWait":
			_, err = s.e.P.SendAndWait(dataNode(6, 11, 1, body))
		}
		if s.sel {
			if err != nil {
				s.fail("send-while-selected", "%s: %v", call, err)
				return
			}
			if m, ok := p.AwaitFrom(mark, mon.Hang, func(m ref.Msg) bool { return m.SType == ref.Data }); !ok {
				s.fail("send-while-selected", "the message did not arrive")
			} else if it, _ := m.Item(); !ref.Equal(it, body) {
				s.fail("send-while-selected", "another message arrived: %s", m)
			} else if m.Session != s.e.Session && s.e.Session != 0 && s.e.Session != 0xFFFF || call == "SendResponse" && (m.Sys != sys || m.Function() != 12) {
				s.fail("send-while-selected", "%s with system bytes %08x went out as %s", call, sys, m)
			}
		} else {
			if !errors.Is(err, hsms.ErrNotSelected) {
				s.fail("send-while-not-selected", "%s returned %v, want ErrNotSelected", call, err)
			}
			if !s.barrier() {
				return
			}
			s.silent(mark, "nothing")
		}
	}
	if s.up && !s.failed {
		if p.BadFrame() != nil {
			s.fail("bad-frame", "%v", p.BadFrame())
		}
		s.checkState()
	}
}
