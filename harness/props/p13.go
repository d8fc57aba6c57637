package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P13", Race: true, Run: p13,
		Rule: "one case is one message given a fate (answered at once or with delay, answered after the timeout, never answered, rejected, fire-and-forget, connection ended meanwhile, sent while not connected or not selected); non-trivial when other requests were open at the same time; distinct by fate, role, T3 and order",
		Assume: []string{"time.Now is monotonic; a timeout is premature only if it came before T3 had passed since the call",
			"an answer sent at least 1 s before T3 that is nevertheless reported as a timeout counts only when it happens three times (a stalled machine is inconclusive)",
			"whether a request whose connection ended is also reported with S9F9 on the next connection is left open"}})
}

const (
	fNow = iota
	fDelay
	fLate
	fNever
	fReject
	fAbort
	fForget
	fForgetW
	fKinds
)

var fateNames = [...]string{"answered", "answered-with-delay", "answered-late", "never-answered", "rejected", "aborted-SxF0", "fire-and-forget", "fire-and-forget-W"}

type p13Req struct {
	tok      string
	fate     int
	m        ref.Msg
	seen     bool
	reply    ref.Msg
	replied  time.Time
	start    time.Time
	elapsed  time.Duration
	err      error
	got      *ast.DataMessage
	returned bool
}

func p13(c *mon.Ctx) {
	n := c.N(8, 48)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("mix-%d", i)
		if c.Skip(label) || c.Violations() > 5 {
			return
		}
		defer c.Begin(label)()
		p13Mix(c, label, i)
	})
	n = c.N(16, 160)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("loss-%d", i)
		if c.Skip(label) || c.Violations() > 5 {
			return
		}
		defer c.Begin(label)()
		p13Loss(c, label, i)
	})
	n = c.N(12, 80)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("refused-%d", i)
		if c.Skip(label) || c.Violations() > 5 {
			return
		}
		defer c.Begin(label)()
		p13Refused(c, label, i%2 == 0)
	})
}

var p13Early struct {
	sync.Mutex
	n int
}

func p13Mix(c *mon.Ctx, label string, idx int) {
	r := c.Rng(label)
	active := idx%2 == 0
	t3 := 2 + idx/2%2
	T3 := time.Duration(t3) * time.Second
	e, err := newEp(active, anySession(r), func(t *hsms.SecsTimeout) {
		t.SetT3ReplyTimeout(t3)
		if r.Intn(2) == 0 { // other timers must not matter
			t.SetT6ControlTransTimeout(1)
			t.SetLinktest(1)
		}
	})
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	var mu sync.Mutex
	reqs := map[string]*p13Req{}
	bySys := map[uint32]*p13Req{}
	s9 := map[string][]ref.Msg{}
	var alien []ref.Msg
	defaults := map[string]int{}
	e.P.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
		if w, err := wireOf(m); err == nil {
			mu.Lock()
			defaults[p12MsgKey(w)]++
			mu.Unlock()
		}
		return nil, nil
	})
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType != ref.Data {
			return false
		}
		it, _ := m.Item()
		mu.Lock()
		defer mu.Unlock()
		if m.Stream() == 9 && m.Function() == 9 {
			if it.K != ref.B {
				alien = append(alien, m)
				return true
			}
			s9[string(m.Text[2:])] = append(s9[string(m.Text[2:])], m)
			return true
		}
		q := reqs[p12Tok(it)]
		if q == nil {
			alien = append(alien, m)
			return true
		}
		q.m, q.seen = m, true
		bySys[m.Sys] = q
		rep := ref.DataMsg(e.Session, m.Stream(), m.Function()+1, false, m.Sys, ref.Lst(ref.Asc("re "+q.tok)))
		send := func() {
			mu.Lock()
			q.reply, q.replied = rep, time.Now()
			mu.Unlock()
			p.Send(rep)
		}
		switch q.fate {
		case fNow:
			q.reply, q.replied = rep, time.Now()
			p.Send(rep)
		case fAbort:
			rep = ref.DataMsg(e.Session, m.Stream(), 0, false, m.Sys, ref.Item{})
			q.reply, q.replied = rep, time.Now()
			p.Send(rep)
		case fDelay:
			time.AfterFunc(time.Duration(rand.Intn(int(T3-1200*time.Millisecond))), send)
		case fReject:
			q.replied = time.Now()
			x := ref.Ctrl(ref.RejectReq, m.Session, m.Sys)
			x.Byte2, x.Byte3 = 0, 4
			p.Send(x)
		}
		return true
	})
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}

	n := 20 + r.Intn(c.N(30, 50))
	var list []*p13Req
	var wg sync.WaitGroup
	lateSent := map[string]int{}
	for k := 0; k < n; k++ {
		q := &p13Req{tok: fmt.Sprintf("%s/%d", label, k), fate: r.Intn(fKinds)}
		list = append(list, q)
		mu.Lock()
		reqs[q.tok] = q
		mu.Unlock()
		st, fn := 1+r.Intn(127), 1+2*r.Intn(127)
		if st == 9 {
			st = 10
		}
		delay := time.Duration(r.Intn(400)) * time.Millisecond
		body := ref.Lst(ref.Asc(q.tok), ref.Gen(r, 1, 4))
		wait := 1 + r.Intn(2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			if q.fate == fForget || q.fate == fForgetW {
				w := 0
				if q.fate == fForgetW {
					w = 1
				}
				err := e.P.SendDataMessage(dataNode(st, fn, w, body))
				mu.Lock()
				q.err, q.returned = err, true
				mu.Unlock()
				return
			}
			t0 := time.Now()
			got, err := e.P.SendAndWait(dataNode(st, fn, wait, body))
			el := time.Since(t0)
			mu.Lock()
			q.start, q.elapsed, q.got, q.err, q.returned = t0, el, got, err, true
			late := q.fate == fLate && q.seen
			m := q.m
			mu.Unlock()
			if late {
				x := ref.DataMsg(e.Session, m.Stream(), m.Function()+1, false, m.Sys, ref.Lst(ref.Asc("late "+q.tok)))
				mu.Lock()
				lateSent[p12MsgKey(x)]++
				mu.Unlock()
				p.Send(x)
			}
		}()
	}
	if !mon.Within(T3+mon.Hang, wg.Wait) {
		c.Violate("request-stuck", p.Log(60), "%s (%s): requests had not returned %v after T3 (%v):\n%s", label, role(active), mon.Hang, T3, mon.LibStacks())
		return
	}
	if !p.Linktest(mon.Hang) {
		c.Violate("endpoint-lost", p.Log(60), "%s (%s): no linktest response after the run; closed=%v", label, role(active), p.Closed())
		return
	}
	// S9F9 are written before SendAndWait returns, so the barrier is behind them. One sent twice or
	// late would come in the next moments.
	time.Sleep(60 * time.Millisecond)
	p.Linktest(mon.Hang)
	mu.Lock()
	defer mu.Unlock()
	for _, m := range alien {
		c.Violate("unexpected-message", m.String(), "%s: the endpoint sent %s", label, m)
	}
	timeouts := 0
	for _, q := range list {
		name := fateNames[q.fate]
		if !q.seen {
			c.Violate("not-sent", nil, "%s (%s): the message never reached the peer: err=%v", q.tok, name, q.err)
			continue
		}
		n9 := len(s9[string(q.m.Header())])
		isT3 := errors.Is(q.err, hsms.ErrT3Timeout)
		if isT3 {
			timeouts++
			if q.elapsed < T3 {
				c.Violate("premature-timeout", nil, "%s (%s, %s): T3 timeout after %v, T3 is %v", q.tok, role(active), name, q.elapsed, T3)
			}
		}
		switch q.fate {
		case fNow, fDelay, fAbort:
			if isT3 && !q.replied.IsZero() {
				p13Early.Lock()
				p13Early.n++
				k := p13Early.n
				p13Early.Unlock()
				if k >= 3 {
					c.Violate("timeout-of-answered-request", nil, "%s (%s, %s): timed out although answered %v before T3 ended (third such case)", q.tok, role(active), name, T3-q.replied.Sub(q.start))
				} else {
					c.Inconclusive("%s: timed out although answered %v after the call", q.tok, q.replied.Sub(q.start))
				}
				continue
			}
			if q.err != nil {
				c.Violate("answered-request-failed", nil, "%s (%s, %s): failed with %v", q.tok, role(active), name, q.err)
			} else if w, err := wireOf(q.got); err != nil || !bytes.Equal(w.Bytes(), q.reply.Bytes()) {
				c.Violate("wrong-reply", nil, "%s: got %v, sent %v", q.tok, w, q.reply)
			}
			if n9 != 0 {
				c.Violate("s9f9-for-answered-request", nil, "%s (%s, %s): %d S9F9 sent for it", q.tok, role(active), name, n9)
			}
		case fLate, fNever:
			if !isT3 {
				c.Violate("no-timeout-error", nil, "%s (%s, %s): unanswered request returned (%v, %v) after %v, want the T3 timeout error", q.tok, role(active), name, q.got, q.err, q.elapsed)
			}
			if n9 != 1 {
				c.Violate("s9f9-count", p.Log(80), "%s (%s, %s): %d S9F9 with its header %x, want exactly 1; S9F9 seen: %v", q.tok, role(active), name, n9, q.m.Header(), s9Keys(s9))
			}
		case fReject:
			if q.err == nil || isT3 {
				c.Violate("rejected-request", nil, "%s (%s): a rejected request returned (%v, %v) after %v", q.tok, role(active), q.got, q.err, q.elapsed)
			}
			if n9 != 0 {
				c.Violate("s9f9-for-rejected-request", nil, "%s: %d S9F9", q.tok, n9)
			}
		case fForget, fForgetW:
			if q.err != nil {
				c.Violate("send-failed", nil, "%s: %v", q.tok, q.err)
			}
			if n9 != 0 {
				c.Violate("s9f9-for-fire-and-forget", nil, "%s: %d S9F9", q.tok, n9)
			}
		}
		c.Case(fmt.Sprintf("%s t3=%d %s %s", role(active), t3, name, q.tok), true)
		c.Count("fate_"+name, 1)
	}
	total := 0
	for h, ms := range s9 {
		total += len(ms)
		for _, m := range ms {
			if m.W() || m.Session != e.Session {
				c.Violate("s9f9-header", m.String(), "%s: %s", label, m)
			}
			if q := bySys[m.Sys]; q != nil && string(q.m.Header()) != h {
				c.Violate("s9f9-system-bytes", m.String(), "%s: S9F9 carries the system bytes of another request: %s", label, m)
			}
		}
	}
	if total != timeouts {
		c.Violate("s9f9-total", s9Keys(s9), "%s (%s): %d timeouts, %d S9F9", label, role(active), timeouts, total)
	}
	for k, want := range lateSent {
		if defaults[k] != want {
			c.Violate("late-reply-lost", k, "%s: a late reply reached the default handler %d times instead of %d: %s", label, defaults[k], want, k)
		}
	}
	c.Count("timeouts", timeouts)
	c.Count("late_replies_delivered_as_unknown", len(lateSent))
	if idx < 2 {
		c.Sample(map[string]any{"case": label, "role": role(active), "T3": T3.String(), "messages": n, "timeouts": timeouts, "s9f9": total})
	}
}

func s9Keys(s9 map[string][]ref.Msg) (out []string) {
	for k, v := range s9 {
		out = append(out, fmt.Sprintf("%x*%d", k, len(v)))
	}
	return
}

// p13Loss ends the connection under open requests.
func p13Loss(c *mon.Ctx, label string, idx int) {
	r := c.Rng(label)
	active := idx%2 == 0
	t3 := 2
	e, err := newEp(active, uint16(r.Intn(0x7FFF)+1), func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(t3) })
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	type seen struct {
		m       ref.Msg
		replied bool
	}
	var mu sync.Mutex
	reqs := map[string]*seen{}
	s9 := map[string]int{}
	odds := map[string]bool{} // answered tokens
	e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType != ref.Data {
			return false
		}
		it, _ := m.Item()
		mu.Lock()
		defer mu.Unlock()
		if m.Stream() == 9 && m.Function() == 9 && len(m.Text) == 12 {
			s9[string(m.Text[2:])]++
			return true
		}
		tok := p12Tok(it)
		s := &seen{m: m}
		reqs[tok] = s
		if odds[tok] {
			s.replied = true
			p.Send(ref.DataMsg(e.Session, m.Stream(), m.Function()+1, false, m.Sys, ref.Lst(ref.Asc("re "+tok))))
		}
		return true
	})
	e.P.Enable()
	p, err := e.up(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	how := []string{"fin", "rst", "separate", "garbage", "deselect"}[idx/2%5]
	n := 3 + r.Intn(12)
	type res struct {
		tok string
		got *ast.DataMessage
		err error
	}
	out := make(chan res, n)
	for k := 0; k < n; k++ {
		tok := fmt.Sprintf("%s/%d", label, k)
		mu.Lock()
		odds[tok] = r.Intn(3) == 0
		mu.Unlock()
		d := time.Duration(r.Intn(60)) * time.Millisecond
		go func() {
			time.Sleep(d)
			got, err := e.P.SendAndWait(dataNode(2, 41, 1, ref.Lst(ref.Asc(tok))))
			out <- res{tok, got, err}
		}()
	}
	time.Sleep(time.Duration(r.Intn(70)) * time.Millisecond)
	switch how {
	case "fin":
		p.Close()
	case "rst":
		p.Reset()
	case "separate":
		p.Send(ref.Ctrl(ref.SeparateReq, e.Session, p.NextSys()))
	case "garbage":
		p.SendRaw([]byte{0, 0, 0, 4, 1, 2, 3, 4}, ref.Msg{})
	case "deselect":
		p.Send(ref.Ctrl(ref.DeselectReq, e.Session, p.NextSys()))
	}
	// meanwhile come back
	var p2 *peer.Peer
	if how == "deselect" {
		p2, err = p, p.Select(mon.Hang)
	} else {
		p2, err = e.up(mon.Hang)
	}
	if err != nil {
		c.Violate("not-usable-after-loss", p.Log(40), "%s (%s, %s): not selected again: %v", label, role(active), how, err)
		return
	}
	if !mon.Eventually(mon.Hang, e.selected) {
		c.Violate("not-usable-after-loss", p.Log(40), "%s (%s, %s): state %s", label, role(active), how, e.P.CurrentState())
		return
	}
	// new requests are answered normally while the old ones are still open
	for k := 0; k < 3; k++ {
		tok := fmt.Sprintf("%s/new%d", label, k)
		mu.Lock()
		odds[tok] = true
		mu.Unlock()
		var got *ast.DataMessage
		var err error
		if !mon.Within(mon.Hang, func() { got, err = e.P.SendAndWait(dataNode(2, 41, 1, ref.Lst(ref.Asc(tok)))) }) || err != nil {
			c.Violate("not-usable-after-loss", p2.Log(40), "%s (%s, %s): a request on the new connection failed: %v", label, role(active), how, err)
			return
		}
		if w, err := wireOf(got); err == nil {
			if it, _ := w.Item(); p12Tok(it) != "re "+tok {
				c.Violate("wrong-reply", nil, "%s: %s answered with %s", label, tok, w)
			}
		}
	}
	limit := time.After(time.Duration(t3)*time.Second + mon.Hang)
	for k := 0; k < n; k++ {
		select {
		case x := <-out:
			mu.Lock()
			s := reqs[x.tok]
			if x.err == nil {
				w, _ := wireOf(x.got)
				it, _ := w.Item()
				if s == nil || !s.replied || p12Tok(it) != "re "+x.tok {
					c.Violate("reply-from-nowhere", nil, "%s (%s, %s): %s returned %s (answered: %v)", label, role(active), how, x.tok, w, s != nil && s.replied)
				}
			} else if s != nil && s9[string(s.m.Header())] > 1 {
				c.Violate("s9f9-count", nil, "%s: %d S9F9 for %s", label, s9[string(s.m.Header())], x.tok)
			}
			mu.Unlock()
			c.Case(fmt.Sprintf("%s %s ok=%v answered=%v", label, how, x.err == nil, s != nil && s.replied), n > 1)
			if x.err != nil {
				c.Count("open_requests_failed_by_loss", 1)
			}
		case <-limit:
			c.Violate("request-stuck", p2.Log(40), "%s (%s, %s): open requests had not returned %v after T3:\n%s", label, role(active), how, mon.Hang, mon.LibStacks())
			return
		}
	}
	c.Count("losses_"+how, 1)
}

// p13Refused sends while there is no connection or no selection.
func p13Refused(c *mon.Ctx, label string, active bool) {
	r := c.Rng(label)
	e, err := newEp(active, uint16(r.Intn(0x7FFF)+1), func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(1) })
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer e.close()
	e.selStatus.Store(-1)
	try := func(when string, want error) {
		for k := 0; k < 1+r.Intn(3); k++ {
			var err error
			what := []string{"SendAndWait", "SendDataMessage", "SendResponse"}[r.Intn(3)]
			m := dataNode(1+r.Intn(8), 1+2*r.Intn(50), r.Intn(2), ref.Asc("refused"))
			var got *ast.DataMessage
			if !mon.Within(mon.Hang, func() {
				switch what {
				case "SendAndWait":
					got, err = e.P.SendAndWait(m)
				case "SendDataMessage":
					err = e.P.SendDataMessage(m)
				default:
					err = e.P.SendResponse(m, []byte{1, 2, 3, 4})
				}
			}) {
				c.Violate("request-stuck", nil, "%s: %s %s did not return", label, what, when)
				return
			}
			if !errors.Is(err, want) || got != nil {
				c.Violate("refusal", nil, "%s (%s): %s while %s returned (%v, %v), want %v", label, role(active), what, when, got, err, want)
			}
			c.Case(fmt.Sprintf("%s %s %s %d", role(active), what, when, k), true)
		}
	}
	try("never-enabled", hsms.ErrNotConnected)
	if active {
		e.L.Close()
	}
	e.P.Enable()
	time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	try("not-connected", hsms.ErrNotConnected)
	if active {
		if err := e.listen(); err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
	}
	p, err := e.connect(mon.Hang)
	if err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	// the endpoint answers linktest once connected; its state is NOT-SELECTED
	if !p.Linktest(mon.Hang) {
		c.Violate("no-connection", nil, "%s: linktest unanswered", label)
		return
	}
	try("not-selected", hsms.ErrNotSelected)
	if active {
		m, ok := p.Await(mon.Hang, func(m ref.Msg) bool { return m.SType == ref.SelectReq })
		if !ok {
			c.Violate("no-select-request", nil, "%s", label)
			return
		}
		p.Send(ref.Ctrl(ref.SelectRsp, m.Session, m.Sys))
	} else if err := p.Select(mon.Hang); err != nil {
		c.Violate("no-connection", nil, "%s: %v", label, err)
		return
	}
	if !mon.Eventually(mon.Hang, e.selected) {
		c.Violate("no-connection", nil, "%s: not selected", label)
		return
	}
	if err := e.P.SendDataMessage(dataNode(1, 1, 0, ref.Asc("go"))); err != nil {
		c.Violate("send-failed", nil, "%s: %v", label, err)
	}
	time.Sleep(1100 * time.Millisecond) // past T3 of the refused requests
	p.Linktest(mon.Hang)
	for _, m := range p.Data() {
		if it, _ := m.Item(); it.K != ref.A || it.Str() != "go" {
			c.Violate("refused-message-sent", m.String(), "%s (%s): a refused message, or an S9F9 for it, reached the wire: %s", label, role(active), m)
		}
	}
	if !active { // an active one reconnects at once
		p.Close()
		if !mon.Eventually(mon.Hang, func() bool { return !e.P.Connected() }) {
			c.Violate("connected-after-loss", nil, "%s: Connected() still true after the peer closed", label)
			return
		}
		try("disconnected", hsms.ErrNotConnected)
	}
	if c.Counter("refused_samples") < 2 {
		c.Count("refused_samples", 1)
		c.Sample(map[string]any{"case": label, "role": role(active), "wire": p.Log(8)})
	}
}
