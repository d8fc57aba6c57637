package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P14", Race: true, Run: p14,
		Rule: "data messages sent to live selected endpoints in both roles; a case is one message with the handlers in force; non-trivial unless it is an unhandled message of the plain sweep with wait bit off; distinct by stream, function, wait bit, handler kind and position in its burst",
		Assume: []string{"a linktest response is a barrier: the endpoint processes one connection's messages in order",
			"streams 11, 18, 19 and 20 may count as known or unknown; a reply (even function) that matches no request may be answered like an unknown function or not at all"}})
}

func p14(c *mon.Ctx) {
	mon.Parallel(2, 2, func(i int) { p14Sweep(c, i == 0) })
	n := c.N(24, 400)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("seq-%d", i)
		if c.Skip(label) || c.Violations() > 8 {
			return
		}
		defer c.Begin(label)()
		p14Seq(c, label, i)
	})
	n = c.N(6, 40)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("s9reply-%d", i)
		if c.Skip(label) || c.Violations() > 8 {
			return
		}
		defer c.Begin(label)()
		p14S9Reply(c, label, i%2 == 0)
	})
}

type s9Seen struct {
	code int
	sys  uint32
}

func s9Watch(e *ep) (*sync.Mutex, *[]s9Seen) {
	var mu sync.Mutex
	var l []s9Seen
	e.P.OnS9Error = func(i *hsms.S9ErrorInfo) {
		mu.Lock()
		l = append(l, s9Seen{i.ErrorCode, be4(i.SystemBytes)})
		mu.Unlock()
	}
	return &mu, &l
}

func be4(b []byte) uint32 {
	if len(b) != 4 {
		return 0xFFFFFFFF
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// knownStream: 1 known, 0 unknown, -1 either.
func knownStream(s int) int {
	switch {
	case s == 11 || s >= 18 && s <= 20:
		return -1
	case s >= 1 && s <= 21:
		return 1
	}
	return 0
}

// s9Answer judges the answers to an unhandled message.
func s9Answer(m ref.Msg, ans []ref.Msg, session uint16) string {
	st, fn := m.Stream(), m.Function()
	if st == 9 {
		if len(ans) > 0 {
			return "a stream 9 message was answered"
		}
		return ""
	}
	if len(ans) == 0 {
		if fn%2 == 0 {
			return ""
		}
		return "no answer"
	}
	if len(ans) > 1 {
		return fmt.Sprintf("%d answers", len(ans))
	}
	a := ans[0]
	if a.Stream() != 9 || a.W() || a.Session != session || a.PType != 0 || a.SType != 0 {
		return "not a stream 9 answer of this session"
	}
	it, err := a.Item()
	if err != nil || it.K != ref.B || len(it.Words) != 1 {
		return "answer body is not one byte"
	}
	k := knownStream(st)
	switch a.Function() {
	case 3:
		if k == 1 {
			return "known stream reported as unknown"
		}
		if int(it.Words[0]) != st {
			return "S9F3 names another stream"
		}
	case 5:
		if k == 0 {
			return "unknown stream reported as unknown function"
		}
		if int(it.Words[0]) != fn {
			return "S9F5 names another function"
		}
	default:
		return "wrong S9 function"
	}
	return ""
}

func p14Sweep(c *mon.Ctx, active bool) {
	label := "sweep-" + role(active)
	if c.Skip(label) {
		return
	}
	defer c.Begin(label)()
	r := c.Rng(label)
	e, err := newEp(active, uint16(r.Intn(0x7FFF)+1), nil)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	smu, seen := s9Watch(e)
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	order := r.Perm(128)
	for _, st := range order {
		if c.Violations() > 8 {
			return
		}
		var batch []ref.Msg
		mark := p.Mark()
		base := r.Uint32()
		for fn := 0; fn < 256; fn++ {
			for w := 0; w < 2; w++ {
				if w == 1 && fn%2 == 0 {
					continue
				}
				it := ref.Item{}
				if r.Intn(4) == 0 {
					it = ref.Gen(r, 2, 4)
				}
				m := ref.DataMsg(e.Session, st, fn, w == 1, base+uint32(len(batch)), it)
				batch = append(batch, m)
			}
		}
		r.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
		smu.Lock()
		*seen = (*seen)[:0]
		smu.Unlock()
		for _, m := range batch {
			p.Send(m)
		}
		if !p.Linktest(mon.Hang) {
			c.Violate("endpoint-lost", nil, "%s: no linktest response after the messages of stream %d; closed=%v", label, st, p.Closed())
			return
		}
		ans := map[uint32][]ref.Msg{}
		for _, ev := range p.ReceivedFrom(mark) {
			if ev.Dir == "rx" && ev.Msg.SType == ref.Data {
				ans[ev.Msg.Sys] = append(ans[ev.Msg.Sys], ev.Msg)
			}
		}
		for _, m := range batch {
			if bad := s9Answer(m, ans[m.Sys], e.Session); bad != "" {
				c.Violate("unhandled-answer:"+firstWords(bad), m.String(), "%s: unhandled %s: %s: %v", label, m, bad, ans[m.Sys])
			}
			delete(ans, m.Sys)
			c.Case(fmt.Sprintf("%s S%dF%d%v", role(active), m.Stream(), m.Function(), m.W()), m.W())
		}
		for _, a := range ans {
			c.Violate("answer-to-nothing", fmt.Sprint(a), "%s: stream %d: %v", label, st, a)
		}
		smu.Lock()
		want := 0
		if st == 9 {
			want = len(batch)
			for i, m := range batch {
				if i < len(*seen) && ((*seen)[i].code != m.Function() || (*seen)[i].sys != m.Sys) {
					c.Violate("s9-callback", nil, "%s: callback %d reports function %d system bytes %08x for %s", label, i, (*seen)[i].code, (*seen)[i].sys, m)
				}
			}
		}
		if len(*seen) != want {
			c.Violate("s9-callback-count", nil, "%s: stream %d: the S9 callback ran %d times for %d stream 9 messages", label, st, len(*seen), want)
		}
		smu.Unlock()
		c.Count("sweep_messages", len(batch))
	}
}

type p14Handler struct {
	id   int
	mode string // reply, nil, error
	st   int
	fn   int
	wait int
	body ref.Item
}

type p14Call struct {
	h   int
	key string
}

func p14Seq(c *mon.Ctx, label string, idx int) {
	r := c.Rng(label)
	active := idx%2 == 0
	e, err := newEp(active, uint16(r.Intn(0x7FFF)+1), nil)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	smu, s9seen := s9Watch(e)
	var mu sync.Mutex
	var calls []p14Call
	slow := r.Intn(3) == 0
	mk := func(h *p14Handler) hsms.DataMessageHandler {
		return func(m *ast.DataMessage) (*ast.DataMessage, error) {
			w, err := wireOf(m)
			k := p12MsgKey(w)
			if err != nil {
				k = err.Error()
			}
			if slow {
				time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
			}
			mu.Lock()
			calls = append(calls, p14Call{h.id, k})
			mu.Unlock()
			switch h.mode {
			case "error":
				return nil, errors.New("handler error")
			case "nil":
				return nil, nil
			}
			n := dataNode(h.st, h.fn, h.wait, h.body)
			if h.id%2 == 0 { // a reply that already carries other identifiers
				n = n.SetSessionIDAndSystemBytes(4242, []byte{9, 9, 9, 9})
			}
			return n, nil
		}
	}
	isOwn := func(m ref.Msg) bool { // the endpoint's own requests
		it, _ := m.Item()
		return m.W() && p12Tok(it) == "own"
	}
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && isOwn(m) {
			it, _ := m.Item()
			p.Send(ref.DataMsg(e.Session, m.Stream(), m.Function()+1, false, m.Sys, it))
			return true
		}
		return false
	})
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < r.Intn(3); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if _, err := e.P.SendAndWait(dataNode(1, 1, 1, ref.Lst(ref.Asc("own")))); err != nil {
					c.Violate("own-request-failed", nil, "%s: %v", label, err)
					return
				}
			}
		}()
	}
	defer func() { close(stop); wg.Wait() }()

	handlers := map[[2]int]*p14Handler{}
	var def *p14Handler
	nextID := 0
	newH := func() *p14Handler {
		nextID++
		h := &p14Handler{id: nextID, mode: []string{"reply", "reply", "reply", "nil", "error"}[r.Intn(5)], st: r.Intn(128), fn: 2 * r.Intn(128), wait: 2 * r.Intn(2)}
		if r.Intn(3) > 0 {
			h.body = ref.Gen(r, 2, 5)
		}
		return h
	}
	streams := []int{1, 2, 5, 6, 7, 9, 9, 10, 11, 64, 100, r.Intn(128), r.Intn(128)}
	fns := 256
	if r.Intn(3) == 0 { // numbers that look alike
		streams = []int{1, 11, 111, 2, 12}
		fns = 0
	}
	fnum := func() int {
		if fns == 0 {
			return []int{1, 11, 111, 2, 12, 112, 21}[r.Intn(7)]
		}
		return r.Intn(fns)
	}
	pick := func() (int, int) {
		if len(handlers) > 0 && r.Intn(3) > 0 {
			i := r.Intn(len(handlers))
			// map order must not decide: choose the i-th in key order
			var ks [][2]int
			for k := range handlers {
				ks = append(ks, k)
			}
			sort2(ks)
			return ks[i][0], ks[i][1]
		}
		return streams[r.Intn(len(streams))], fnum()
	}
	for round := 0; round < c.N(12, 20); round++ {
		for k := r.Intn(5); k >= 0; k-- {
			switch x := r.Intn(10); {
			case x < 5:
				st, fn := streams[r.Intn(len(streams))], fnum()
				if r.Intn(3) > 0 {
					fn |= 1
				}
				h := newH()
				e.P.RegisterHandler(st, fn, mk(h))
				handlers[[2]int{st, fn}] = h
			case x < 7:
				if len(handlers) > 0 {
					st, fn := pick()
					e.P.RegisterHandler(st, fn, nil)
					delete(handlers, [2]int{st, fn})
				}
			case x == 7:
				def = newH()
				e.P.RegisterDefaultHandler(mk(def))
			case x == 8:
				def = nil
				e.P.RegisterDefaultHandler(nil)
			}
		}
		mu.Lock()
		calls = nil
		mu.Unlock()
		smu.Lock()
		*s9seen = nil
		smu.Unlock()
		mark := p.Mark()
		var burst []ref.Msg
		base := r.Uint32()
		same := r.Intn(6) == 0 // all primaries with the same system bytes: legal for messages without W
		for k := 1 + r.Intn(40); k > 0; k-- {
			st, fn := pick()
			w := fn%2 == 1 && r.Intn(2) == 0
			sys := base + uint32(k)
			if same && !w {
				sys = base
			}
			it := ref.Item{}
			if r.Intn(4) > 0 {
				it = ref.Gen(r, 2, 6)
			}
			sess := e.Session
			m := ref.DataMsg(sess, st, fn, w, sys, it)
			burst = append(burst, m)
		}
		for i, m := range burst {
			p.Send(m)
			if i%7 == 3 && r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
		}
		if !p.Linktest(mon.Hang) {
			c.Violate("endpoint-lost", p.Log(60), "%s: no linktest response after a burst; closed=%v", label, p.Closed())
			return
		}
		time.Sleep(time.Millisecond)
		p.Linktest(mon.Hang)
		var got []ref.Msg
		mu.Lock()
		for _, ev := range p.ReceivedFrom(mark) {
			if ev.Dir == "rx" && ev.Msg.SType == ref.Data && !isOwn(ev.Msg) {
				got = append(got, ev.Msg)
			}
		}
		gotCalls := append([]p14Call(nil), calls...)
		mu.Unlock()
		smu.Lock()
		gotS9 := append([]s9Seen(nil), *s9seen...)
		smu.Unlock()

		// expected
		ci, wi, si := 0, 0, 0
		fail := func(key, format string, a ...any) {
			var hs []string
			for k, h := range handlers {
				hs = append(hs, fmt.Sprintf("S%dF%d->h%d(%s)", k[0], k[1], h.id, h.mode))
			}
			if def != nil {
				hs = append(hs, fmt.Sprintf("default->h%d(%s)", def.id, def.mode))
			}
			var bs []string
			for _, m := range burst {
				bs = append(bs, m.String())
			}
			c.Violate(key, map[string]any{"handlers": hs, "burst": bs}, "%s (%s) round %d: "+format, append([]any{label, role(active), round}, a...)...)
		}
		bad := false
		for i, m := range burst {
			if m.Stream() == 9 {
				if si >= len(gotS9) || gotS9[si].code != m.Function() || gotS9[si].sys != m.Sys {
					fail("s9-callback", "message %d (%s): callback %d is %v", i, m, si, gotS9)
					bad = true
					break
				}
				si++
			}
			h := handlers[[2]int{m.Stream(), m.Function()}]
			kind := "own"
			if h == nil {
				h = def
				kind = "default"
			}
			if h == nil {
				kind = "none"
				var ans []ref.Msg
				if wi < len(got) && got[wi].Sys == m.Sys && got[wi].Stream() == 9 && (m.Function()%2 == 1 || got[wi].Function() == 3 || got[wi].Function() == 5) && m.Stream() != 9 {
					// with repeated system bytes an optional answer might belong to the next message
					if m.Function()%2 == 1 || s9Answer(m, got[wi:wi+1], e.Session) == "" {
						ans = got[wi : wi+1]
						wi++
					}
				}
				if b := s9Answer(m, ans, e.Session); b != "" {
					fail("unhandled-answer:"+firstWords(b), "message %d (%s): %s: %v; all answers: %v", i, m, b, ans, got)
					bad = true
					break
				}
			} else {
				if ci >= len(gotCalls) || gotCalls[ci].h != h.id || gotCalls[ci].key != p12MsgKey(m) {
					fail("handler-calls", "message %d (%s) should be call %d, of handler %d; calls: %v", i, m, ci, h.id, gotCalls)
					bad = true
					break
				}
				ci++
				if h.mode == "reply" && m.W() {
					want := ref.DataMsg(e.Session, h.st, h.fn, false, m.Sys, h.body)
					if wi >= len(got) || !bytes.Equal(got[wi].Bytes(), want.Bytes()) {
						fail("handler-reply", "message %d (%s): handler %d replies %s; the wire shows (from position %d) %v", i, m, h.id, want, wi, got)
						bad = true
						break
					}
					wi++
					c.Count("handler_replies", 1)
				}
			}
			c.Case(fmt.Sprintf("S%dF%d%v %s %d", m.Stream(), m.Function(), m.W(), kind, i), true)
		}
		if !bad && (ci != len(gotCalls) || wi != len(got) || si != len(gotS9)) {
			fail("surplus", "%d of %d handler calls, %d of %d answers, %d of %d S9 callbacks explained; calls %v answers %v", ci, len(gotCalls), wi, len(got), si, len(gotS9), gotCalls, got)
			bad = true
		}
		if bad {
			return
		}
		c.Count("bursts", 1)
		c.Count("handler_calls", len(gotCalls))
		if idx < 2 && round < 2 {
			c.Sample(map[string]any{"case": label, "role": role(active), "burst": len(burst), "calls": len(gotCalls), "answers": len(got), "last": burst[len(burst)-1].String()})
		}
	}
}

func sort2(ks [][2]int) {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && (ks[j][0] < ks[j-1][0] || ks[j][0] == ks[j-1][0] && ks[j][1] < ks[j-1][1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}

// p14S9Reply: an S9 message that ends an open request is reported to the callback like any other.
func p14S9Reply(c *mon.Ctx, label string, active bool) {
	r := c.Rng(label)
	e, err := newEp(active, uint16(r.Intn(0x7FFF)+1), nil)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	smu, seen := s9Watch(e)
	var want []s9Seen
	var wmu sync.Mutex
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType != ref.Data || !m.W() {
			return false
		}
		fn := 1 + 2*r.Intn(7)
		wmu.Lock()
		want = append(want, s9Seen{fn, m.Sys})
		wmu.Unlock()
		p.Send(ref.DataMsg(e.Session, 9, fn, false, m.Sys, ref.Bin(m.Header()...)))
		return true
	})
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	for k := 0; k < 6; k++ {
		var got *ast.DataMessage
		var err error
		if !mon.Within(mon.Hang, func() { got, err = e.P.SendAndWait(dataNode(99, 1, 1, ref.Item{})) }) || err != nil || got.StreamCode() != 9 {
			c.Violate("s9-reply", p.Log(10), "%s: a request answered with S9 returned (%v, %v)", label, got, err)
			return
		}
	}
	p.Linktest(mon.Hang)
	smu.Lock()
	wmu.Lock()
	if fmt.Sprint(want) != fmt.Sprint(*seen) {
		c.Violate("s9-callback-count", p.Log(20), "%s (%s): S9 messages received as answers to open requests (function, system bytes): %v; reported to the S9 callback: %v", label, role(active), want, *seen)
	}
	c.Case(fmt.Sprintf("%s %v", label, want[0].code), true)
	wmu.Unlock()
	smu.Unlock()
}
