package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P12", Race: true, Run: p12,
		Rule: "requests issued by concurrent callers of live endpoints in both roles while a seeded adversarial peer reorders, duplicates and collides; a case is one answered request; non-trivial when at least one other request was open at the same time or colliding traffic carrying its system bytes was sent while it was open; distinct by (caller, request, kind of first answer, collisions)",
		Assume: []string{"T3 is set to 120 s so that no request times out; a request is called stuck only after a 40 s watchdog past the last answer",
			"a duplicate of a reply may be dropped or reported to the default handler, since it can race with the end of its own transaction"}})
}

// p12Req is one request seen at the peer.
type p12Req struct {
	m      ref.Msg
	open   int // other requests open when this one arrived
	first  ref.Msg
	sent   bool
	others int // colliding messages sent while it was open
	kind   string
}

type p12Run struct {
	c     *mon.Ctx
	label string
	e     *ep
	p     *peer.Peer

	mu      sync.Mutex
	pending []*p12Req
	byToken map[string]*p12Req
	openSys map[uint32]bool
	hist    []string

	hmu     sync.Mutex
	handled map[string]int
	expect1 map[string]int // messages the default handler has to see exactly once
	expect0 map[string]int // messages it may see at most once
	nctl    atomic.Int64
	stop    atomic.Bool
}

func p12Tok(it ref.Item) string {
	if it.K == ref.L && len(it.List) > 0 {
		return it.List[0].Str()
	}
	return ""
}

func p12MsgKey(m ref.Msg) string {
	return fmt.Sprintf("S%dF%d W=%v sys=%08x sess=%d %x", m.Stream(), m.Function(), m.W(), m.Sys, m.Session, m.Text)
}

func p12(c *mon.Ctx) {
	n := c.N(24, 240)
	mon.Parallel(5, n, func(i int) {
		label := fmt.Sprintf("mix-%d", i)
		if c.Skip(label) || c.Violations() > 5 {
			return
		}
		defer c.Begin(label)()
		p12One(c, label, i%2 == 0, i)
	})
	for i, active := range []bool{true, false} {
		label := fmt.Sprintf("long-%d", i)
		if c.Broken() || c.Skip(label) {
			continue
		}
		done := c.Begin(label)
		p12Long(c, label, active)
		done()
	}
	if !c.Broken() {
		p12Control(c)
	}
}

func (s *p12Run) log(format string, a ...any) {
	if len(s.hist) < 4000 {
		s.hist = append(s.hist, fmt.Sprintf(format, a...))
	}
}

func (s *p12Run) tail(sys uint32) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	k := fmt.Sprintf("%08x", sys)
	for _, h := range s.hist {
		if strings.Contains(h, k) {
			out = append(out, h)
		}
	}
	return out
}

func p12One(c *mon.Ctx, label string, active bool, idx int) {
	r := c.Rng(label)
	e, err := newEp(active, anySession(r), nil)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	s := &p12Run{c: c, label: label, e: e, byToken: map[string]*p12Req{}, openSys: map[uint32]bool{},
		handled: map[string]int{}, expect1: map[string]int{}, expect0: map[string]int{}}
	e.P.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
		w, err := wireOf(m)
		if err != nil {
			c.Violate("handler-message-unencodable", nil, "%s: %v", label, err)
			return nil, nil
		}
		s.hmu.Lock()
		s.handled[p12MsgKey(w)]++
		s.hmu.Unlock()
		return nil, nil
	})
	e.setHook(s.onMsg)
	e.P.Enable()
	if s.p, err = e.up(mon.Hang); err != nil {
		c.Violate("no-connection", nil, "%s: endpoint did not get connected and selected: %v", label, err)
		return
	}

	callers := 2 + r.Intn(14)
	per := c.N(40, 60)
	if idx%8 == 5 { // a crowd
		callers, per = 100+r.Intn(200), 3
	}
	advDone := make(chan struct{})
	go func() { defer close(advDone); s.adversary(c.Rng(label + "/adv")) }()

	var returned atomic.Int64
	ok := mon.Within(mon.Hang*2, func() {
		var wg sync.WaitGroup
		for k := 0; k < callers; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rk := c.Rng(fmt.Sprintf("%s/c%d", label, k))
				for q := 0; q < per && c.Violations() < 20; q++ {
					s.call(rk, k, q)
					returned.Add(1)
				}
			}(k)
		}
		wg.Wait()
	})
	s.stop.Store(true)
	<-advDone
	if !ok {
		c.Violate("request-stuck", s.p.Log(60), "%s (%s): %d of %d requests returned although every request on the wire was answered; open goroutines:\n%s", label, role(active), returned.Load(), callers*per, mon.LibStacks())
		return
	}
	// everything the peer sent has been processed once the barrier is answered
	if !s.p.Linktest(mon.Hang) {
		c.Violate("endpoint-lost", s.p.Log(60), "%s (%s): no linktest response after the run; connection closed by the endpoint: %v", label, role(active), s.p.Closed())
		return
	}
	s.hmu.Lock()
	defer s.hmu.Unlock()
	for k, n := range s.expect1 {
		if s.handled[k] != n {
			key := "unrelated-message-lost"
			if s.handled[k] > n {
				key = "unrelated-message-duplicated"
			}
			c.Violate(key, k, "%s (%s): the default handler saw this message %d times, the peer sent it %d times: %s", label, role(active), s.handled[k], n, k)
		}
	}
	for k, n := range s.handled {
		if s.expect1[k] == 0 && n > s.expect0[k] {
			c.Violate("handler-saw-reply", k, "%s (%s): the default handler saw %d times a message that was sent as the reply of an open request %d times: %s", label, role(active), n, s.expect0[k], k)
		}
	}
	if s.p.BadFrame() != nil {
		c.Violate("bad-frame", nil, "%s: %v", label, s.p.BadFrame())
	}
	c.Count("requests_answered", int(returned.Load()))
	c.Count("unrelated_messages_delivered", len(s.expect1))
	c.Count("control_collisions", int(s.nctl.Load()))
	if idx < 3 {
		s.mu.Lock()
		h := s.hist
		if len(h) > 12 {
			h = h[:12]
		}
		c.Sample(map[string]any{"case": label, "role": role(active), "callers": callers, "history": append([]string(nil), h...)})
		s.mu.Unlock()
	}
}

// onMsg runs on the peer's reader.
func (s *p12Run) onMsg(p *peer.Peer, m ref.Msg) bool {
	if m.SType != ref.Data || m.PType != 0 {
		return false
	}
	it, err := m.Item()
	tok := ""
	if err == nil {
		tok = p12Tok(it)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if tok == "" {
		s.c.Violate("unexpected-message", m.String(), "%s: the endpoint sent a message nobody asked for: %s", s.label, m)
		return true
	}
	if !m.W() {
		s.c.Violate("request-without-wait-bit", m.String(), "%s: %s", s.label, m)
	}
	if s.openSys[m.Sys] {
		s.c.Violate("system-bytes-collide", m.String(), "%s: request %s uses the system bytes of another open request", s.label, tok)
	}
	rq := &p12Req{m: m, open: len(s.openSys)}
	s.c.Max("max_open_requests", len(s.openSys)+1)
	s.openSys[m.Sys] = true
	s.byToken[tok] = rq
	s.pending = append(s.pending, rq)
	s.log("rx %s %08x", tok, m.Sys)
	return true
}

func (s *p12Run) call(r *rand.Rand, k, q int) {
	tok := fmt.Sprintf("%s/%d/%d", s.label, k, q)
	stream := []int{1, 2, 5, 6, 7, 10, 99, 127}[r.Intn(8)]
	fn := 1 + 2*r.Intn(127)
	body := ref.Lst(ref.Asc(tok), ref.Gen(r, 2, 6))
	wait := 1 + r.Intn(2) // true or optional
	resp, err := s.e.P.SendAndWait(dataNode(stream, fn, wait, body))

	s.mu.Lock()
	rq := s.byToken[tok]
	s.mu.Unlock()
	if rq == nil {
		s.c.Violate("returned-unsent", nil, "%s: SendAndWait returned (%v, %v) before the request reached the peer", tok, resp, err)
		return
	}
	s.mu.Lock()
	sent, first, kind, open, others := rq.sent, rq.first, rq.kind, rq.open, rq.others
	s.mu.Unlock()
	if rq.m.Stream() != stream || rq.m.Function() != fn || rq.m.Session != s.e.Session {
		s.c.Violate("request-altered", rq.m.String(), "%s: sent as %s", tok, rq.m)
	}
	if it, e2 := rq.m.Item(); e2 != nil || !ref.Equal(it, body) {
		s.c.Violate("request-altered", rq.m.String(), "%s: request body altered: %s", tok, rq.m)
	}
	if err != nil {
		s.c.Violate("reply-not-returned:"+firstWords(err.Error()), s.tail(rq.m.Sys), "%s (%s): SendAndWait failed with %q although the reply %v was sent (answered so far: %v); history of its system bytes: %v", tok, role(s.e.Active), err, first, sent, s.tail(rq.m.Sys))
		return
	}
	if !sent {
		s.c.Violate("returned-without-reply", s.tail(rq.m.Sys), "%s: SendAndWait returned %s before any reply was sent for it; history: %v", tok, resp.String(), s.tail(rq.m.Sys))
		return
	}
	got, e2 := wireOf(resp)
	if e2 != nil {
		s.c.Violate("reply-unencodable", nil, "%s: %v", tok, e2)
		return
	}
	if !bytes.Equal(got.Bytes(), first.Bytes()) {
		s.c.Violate("wrong-reply", s.tail(rq.m.Sys), "%s (%s): returned %s, but the first reply sent for its system bytes was %s; history: %v", tok, role(s.e.Active), got, first, s.tail(rq.m.Sys))
	}
	s.c.Case(fmt.Sprintf("%s %s %d", tok, kind, others), open > 0 || others > 0)
}

func firstWords(s string) string {
	f := strings.Fields(s)
	if len(f) > 5 {
		f = f[:5]
	}
	return strings.Join(f, "-")
}

func (s *p12Run) send(m ref.Msg, what string) {
	s.mu.Lock()
	s.log("tx %s %08x %s", what, m.Sys, m)
	s.mu.Unlock()
	s.p.Send(m)
}

// unrelated sends a message that answers nothing: the default handler has to see it exactly once.
func (s *p12Run) unrelated(m ref.Msg, what string) {
	s.hmu.Lock()
	s.expect1[p12MsgKey(m)]++
	s.hmu.Unlock()
	s.send(m, what)
}

func (s *p12Run) reply(r *rand.Rand, rq *p12Req) {
	m := s.makeReply(r, rq)
	s.mu.Lock()
	rq.first, rq.sent = m, true
	rq.kind = fmt.Sprintf("S%dF%d", m.Stream(), m.Function())
	delete(s.openSys, rq.m.Sys)
	s.mu.Unlock()
	s.send(m, "reply")
	for d := r.Intn(8) - 5; d > 0; d-- { // duplicates, with another payload
		dup := s.makeReply(r, rq)
		s.hmu.Lock()
		s.expect0[p12MsgKey(dup)]++
		s.hmu.Unlock()
		s.send(dup, "dup")
		s.c.Count("duplicate_replies", 1)
	}
}

var p12Serial atomic.Int64

func (s *p12Run) makeReply(r *rand.Rand, rq *p12Req) ref.Msg {
	st, fn := rq.m.Stream(), rq.m.Function()+1
	switch r.Intn(12) {
	case 0:
		fn = 0
	case 1:
		st, fn = 9, 5
	}
	if fn > 254 {
		fn = 0
	}
	sess := s.e.Session
	it := ref.Lst(ref.Asc(fmt.Sprintf("re %08x", rq.m.Sys)), ref.Uint(ref.U8, uint64(p12Serial.Add(1))), ref.Gen(r, 2, 5))
	return ref.DataMsg(sess, st, fn, false, rq.m.Sys, it)
}

func (s *p12Run) serialItem() ref.Item {
	return ref.Lst(ref.Asc("unrelated"), ref.Uint(ref.U8, uint64(p12Serial.Add(1))))
}

func (s *p12Run) adversary(r *rand.Rand) {
	hold := 1 + r.Intn(12) // how many requests it likes to collect before answering
	idle := 0
	var recent []uint32
	for {
		s.mu.Lock()
		n := len(s.pending)
		s.mu.Unlock()
		if n == 0 {
			if s.stop.Load() {
				return
			}
			time.Sleep(200 * time.Microsecond)
			continue
		}
		if n < hold && idle < 6 {
			idle++
			time.Sleep(300 * time.Microsecond)
			continue
		}
		idle = 0
		burst := 1 + r.Intn(n)
		for ; burst > 0; burst-- {
			s.mu.Lock()
			j := r.Intn(len(s.pending))
			if r.Intn(3) == 0 {
				j = len(s.pending) - 1
			}
			rq := s.pending[j]
			s.mu.Unlock()
			answer := true
			switch r.Intn(14) {
			case 0: // a primary of the peer that happens to use the same system bytes
				w := r.Intn(2) == 0
				st := []int{1, 2, 6, 10, 64}[r.Intn(5)]
				s.unrelated(ref.DataMsg(s.e.Session, st, 1+2*r.Intn(100), w, rq.m.Sys, s.serialItem()), "primary")
				s.collide(rq)
				answer = r.Intn(2) == 0
			case 1: // a reply to nothing: system bytes close to open ones
				sys := rq.m.Sys + uint32(r.Intn(1<<16)) + 1<<20
				s.unrelated(ref.DataMsg(s.e.Session, rq.m.Stream(), rq.m.Function()+1&^1, false, sys, s.serialItem()), "unknown")
			case 2: // only one byte of the system bytes differs
				sys := rq.m.Sys ^ (0xFF << (8 * uint(1+r.Intn(3))))
				s.mu.Lock()
				open := s.openSys[sys]
				s.mu.Unlock()
				if d := int64(sys) - int64(rq.m.Sys); !open && (d > 4000 || d < -4000) {
					s.unrelated(ref.DataMsg(s.e.Session, 1, 2*r.Intn(60), false, sys, s.serialItem()), "near")
				}
			case 3: // control traffic with the same system bytes
				p := s.p
				mark := p.Mark()
				s.send(ref.Ctrl(ref.LinktestReq, 0xFFFF, rq.m.Sys), "linktest.req")
				sys := rq.m.Sys
				if _, ok := p.AwaitFrom(mark, mon.Hang, func(m ref.Msg) bool { return m.SType == ref.LinktestRsp && m.Sys == sys }); !ok {
					s.c.Violate("linktest-unanswered", nil, "%s: linktest.req with the system bytes of an open request was not answered", s.label)
				}
				s.collide(rq)
				s.nctl.Add(1)
			case 4: // responses to control requests nobody sent
				st := []byte{ref.LinktestRsp, ref.SelectRsp, ref.DeselectRsp}[r.Intn(3)]
				m := ref.Ctrl(st, s.e.Session, rq.m.Sys)
				if st == ref.LinktestRsp {
					m.Session = 0xFFFF
				}
				s.send(m, "ctrl-rsp")
				s.collide(rq)
				s.nctl.Add(1)
				answer = r.Intn(2) == 0
			case 5: // a late reply to a finished request
				if len(recent) > 40 {
					sys := recent[r.Intn(len(recent)-40)]
					s.unrelated(ref.DataMsg(s.e.Session, 6, 12, false, sys, s.serialItem()), "late")
				}
			}
			if !answer {
				continue
			}
			s.mu.Lock()
			s.pending = append(s.pending[:j], s.pending[j+1:]...)
			left := len(s.pending)
			s.mu.Unlock()
			s.reply(r, rq)
			recent = append(recent, rq.m.Sys)
			if left == 0 {
				break
			}
		}
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
	}
}

func (s *p12Run) collide(rq *p12Req) {
	s.mu.Lock()
	rq.others++
	s.mu.Unlock()
	s.c.Count("collisions_on_open_requests", 1)
}

// p12Long keeps one request open while more than 65536 messages are sent. Whenever the next system
// bytes could be those of the open request but for some high bits, a second request is made.
func p12Long(c *mon.Ctx, label string, active bool) {
	r := c.Rng(label)
	e, err := newEp(active, anySession(r), func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(600) })
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	var first atomic.Pointer[ref.Msg]
	var n, collided atomic.Int64
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType != ref.Data || m.PType != 0 {
			return false
		}
		n.Add(1)
		if m.Function() == 1 {
			first.Store(&m)
			return true
		}
		if f := first.Load(); m.W() {
			if m.Sys == f.Sys {
				collided.Add(1)
				c.Violate("system-bytes-collide", m.String(), "%s: a request uses the system bytes of another open request, %d messages later", label, n.Load())
			}
			p.Send(ref.DataMsg(e.Session, 1, 4, false, m.Sys, ref.Lst(ref.Asc("second"))))
		}
		return true
	})
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	type res struct {
		m   *ast.DataMessage
		err error
	}
	done := make(chan res, 1)
	go func() {
		m, err := e.P.SendAndWait(dataNode(1, 1, 1, ref.Lst()))
		done <- res{m, err}
	}()
	if !mon.Eventually(mon.Hang, func() bool { return first.Load() != nil }) {
		c.Inconclusive("%s: the request did not come", label)
		return
	}
	x := first.Load().Sys
	total := c.N(66000, 140000)
	seconds := 0
	for k := 0; k < total && c.Violations() == 0; k++ {
		near := false
		for _, bits := range []uint{8, 10, 12, 15, 16, 17} {
			mask := uint32(1)<<bits - 1
			near = near || (x+uint32(k)+1)&mask == x&mask
		}
		if near {
			seconds++
			m, err := e.P.SendAndWait(dataNode(1, 3, 1, ref.Lst()))
			if err != nil || m.FunctionCode() != 4 {
				c.Violate("reply-not-returned", nil, "%s: a request, %d messages after another that is open, gives %v, %v", label, k+1, m, err)
				return
			}
			continue
		}
		if err := e.P.SendDataMessage(dataNode(1, 5, 0, ref.Lst())); err != nil {
			c.Inconclusive("%s: send %d: %v", label, k, err)
			return
		}
	}
	if c.Violations() > 0 {
		return
	}
	p.Send(ref.DataMsg(e.Session, 1, 2, false, x, ref.Lst(ref.Asc("first"))))
	var got res
	if !mon.Within(mon.Hang, func() { got = <-done }) {
		c.Violate("request-stuck", nil, "%s: a request answered after %d other messages has not returned", label, total)
		return
	}
	w, err := wireOf(got.m)
	if got.err != nil || err != nil || p12Tok(p12Item(w)) != "first" {
		c.Violate("wrong-reply", nil, "%s: a request answered after %d other messages gives %v, %v", label, total, got.m, got.err)
	}
	c.Case(label, true)
	c.Count("messages sent while one request was open", int(n.Load()))
	c.Count("requests made where system bytes might repeat", seconds)
}

func p12Item(m ref.Msg) ref.Item { it, _ := m.Item(); return it }

// p12Control collides data messages with the endpoint's own open control transactions: the select
// and linktest requests must not swallow them.
func p12Control(c *mon.Ctx) {
	n := c.N(6, 40)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("control-%d", i)
		if c.Skip(label) || c.Violations() > 5 {
			return
		}
		defer c.Begin(label)()
		active := i%2 == 0
		r := c.Rng(label)
		e, err := newEp(active, uint16(r.Intn(1000)+1), func(t *hsms.SecsTimeout) { t.SetLinktest(1) })
		if err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
		defer e.close()
		var hmu sync.Mutex
		handled := map[string]int{}
		want := map[string]int{}
		e.P.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
			if w, err := wireOf(m); err == nil {
				hmu.Lock()
				handled[p12MsgKey(w)]++
				hmu.Unlock()
			}
			return nil, nil
		})
		var links atomic.Int64
		e.setHook(func(p *peer.Peer, m ref.Msg) bool {
			if m.SType != ref.LinktestReq || !e.selected() {
				return false
			}
			// its system bytes are open now: a reply-like data message must still be data
			for k := 0; k < 2; k++ {
				d := ref.DataMsg(e.Session, 6, 2*k, false, m.Sys, ref.Lst(ref.Asc("data on control"), ref.Uint(ref.U8, uint64(p12Serial.Add(1)))))
				hmu.Lock()
				want[p12MsgKey(d)]++
				hmu.Unlock()
				p.Send(d)
			}
			p.Send(ref.Ctrl(ref.LinktestRsp, 0xFFFF, m.Sys))
			links.Add(1)
			c.Count("data_on_open_control_transactions", 2)
			return true
		})
		e.P.Enable()
		p, err := e.up(mon.Hang)
		if err != nil {
			c.Violate("no-connection", nil, "%s: %v", label, err)
			return
		}
		rounds := int64(c.N(2, 4))
		mon.Eventually(mon.Hang, func() bool { return links.Load() >= rounds || p.Closed() })
		if !p.Linktest(mon.Hang) {
			c.Violate("endpoint-lost", p.Log(60), "%s (%s): no linktest response; closed=%v", label, role(active), p.Closed())
			return
		}
		hmu.Lock()
		defer hmu.Unlock()
		for k, n := range want {
			if handled[k] != n {
				c.Violate("data-swallowed-by-control-transaction", p.Log(30), "%s (%s): a data message carrying the system bytes of the endpoint's open linktest request reached the handlers %d times instead of %d: %s", label, role(active), handled[k], n, k)
			}
		}
		c.Case(label+fmt.Sprint(links.Load()), links.Load() > 0)
	})
}
