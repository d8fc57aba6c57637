package props

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P30", Race: true, Run: p30,
		Rule: "one case is one command (from a raw host or by a host call) with the handler's view of it and the answer compared with what was sent, or one answer of a raw equipment read by a host; distinct by label and number",
		Assume: []string{"a value that cannot be encoded (text that is not 7-bit ASCII, a float that is no number, an unsupported type) is refused by the call",
			"a missing parameter list, a parameter of one item or of more than two is unspecified",
			"codes the library defines are HCACK 0..6 and CPACK 1..63; others are only required not to turn into success"}})
}

// rcmdHandler answers each command from a plan and records what it was given.
type rcmdHandler struct {
	mu     sync.Mutex
	calls  []gem.RemoteCommandRequest
	plans  []rcmdPlan
	events []gem.RemoteCommandRequest
}

type rcmdPlan struct {
	res gem.RemoteCommandResult
	err error
}

func (h *rcmdHandler) handle(req gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, req)
	p := h.plans[0]
	if len(h.plans) > 1 {
		h.plans = h.plans[1:]
	}
	return p.res, p.err
}

func (h *rcmdHandler) event(d map[string]any) {
	req, _ := d["request"].(gem.RemoteCommandRequest)
	h.mu.Lock()
	h.events = append(h.events, req)
	h.mu.Unlock()
}

func (h *rcmdHandler) take() (calls, events []gem.RemoteCommandRequest) {
	h.mu.Lock()
	defer h.mu.Unlock()
	calls, events, h.calls, h.events = h.calls, h.events, nil, nil
	return
}

func (h *rcmdHandler) plan(p ...rcmdPlan) {
	h.mu.Lock()
	h.plans = p
	h.mu.Unlock()
}

// rcmd is a command as the model has it.
type rcmd struct {
	id     gid
	names  []gid
	values []ref.Item
}

func genRcmd(r *rand.Rand) rcmd {
	m := rcmd{id: genID(r)}
	n := r.Intn(5)
	switch r.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = r.Intn(60)
	case 2:
		n = 256 + r.Intn(60) // the parameter list needs two length bytes
	}
	for i := 0; i < n; i++ {
		id := genID(r)
		if i > 0 && r.Intn(5) == 0 {
			id = m.names[r.Intn(i)] // the same parameter twice
		}
		m.names = append(m.names, id)
		m.values = append(m.values, ref.Gen(r, 3, 6))
	}
	return m
}

func (m rcmd) item(r *rand.Rand) ref.Item {
	var ps []ref.Item
	for i, n := range m.names {
		ps = append(ps, ref.Lst(n.wire(r), m.values[i]))
	}
	return ref.Lst(m.id.wire(r), ref.Lst(ps...))
}

// diff tells how the handler's view differs from the command.
func (m rcmd) diff(req gem.RemoteCommandRequest) string {
	if req.CommandID != m.id.raw() || req.Command != fmt.Sprint(m.id.raw()) {
		return fmt.Sprintf("command %#v (%q), sent %#v", req.CommandID, req.Command, m.id.raw())
	}
	if len(req.Parameters) != len(m.names) {
		return fmt.Sprintf("%d parameters, sent %d", len(req.Parameters), len(m.names))
	}
	for i, p := range req.Parameters {
		if p.Identifier != m.names[i].raw() || p.Name != fmt.Sprint(m.names[i].raw()) {
			return fmt.Sprintf("parameter %d is %#v (%q), sent %#v", i, p.Identifier, p.Name, m.names[i].raw())
		}
		if !sameItem(p.Value, m.values[i]) {
			return fmt.Sprintf("parameter %d has the value %s, sent %s", i, nodeStr(p.Value), cutStr(m.values[i].String(), 200))
		}
	}
	return ""
}

// genPlan is a handler's verdict and the answer it must lead to (wantH -1: any refusal).
func genRcmdPlan(r *rand.Rand) (p rcmdPlan, wantH int, names []gid, acks []int) {
	h := gem.HCACKCode(0)
	if r.Intn(2) == 0 {
		h = gem.HCACKCode(r.Intn(7))
	}
	if r.Intn(15) == 0 {
		h = gem.HCACKCode(7 + r.Intn(249))
	}
	wantH = int(h)
	if h > 6 {
		wantH = -1
	}
	p.res.HCACK = h
	if r.Intn(6) == 0 {
		p.err = errors.New("cannot")
		if h == 0 {
			wantH = int(gem.HCACKCannotPerformNow)
		}
	}
	n := 0
	if r.Intn(2) == 0 {
		n = r.Intn(5)
	}
	if r.Intn(20) == 0 {
		n = 250 + r.Intn(20)
	}
	for i := 0; i < n; i++ {
		id := genID(r)
		a := 1 + r.Intn(3)
		switch r.Intn(10) {
		case 0:
			a = 1 + r.Intn(63)
		case 1:
			a = []int{0, 64, 255}[r.Intn(3)]
		}
		p.res.ParameterAcks = append(p.res.ParameterAcks, gem.RemoteCommandParameterAck{Name: id.goVal(r), Ack: gem.CPACKCode(a)})
		names = append(names, id)
		if a < 1 || a > 63 {
			a = -1
		}
		acks = append(acks, a)
	}
	if r.Intn(25) == 0 && n > 0 {
		// the answer cannot be built: some refusal, whatever the handler said
		p.res.ParameterAcks[r.Intn(n)].Name = notGoID(r)
		wantH, names, acks = -1, nil, nil
	}
	return
}

// ackDiff compares an S2F42 body with the verdict.
func ackDiff(it ref.Item, wantH int, names []gid, acks []int) string {
	if it.K != ref.L || len(it.List) != 2 || ack1(it.List[0]) < 0 || it.List[1].K != ref.L {
		return "it is no <L <B HCACK> <L ...>>"
	}
	if h := ack1(it.List[0]); wantH >= 0 && h != wantH || wantH < 0 && (h == 0 || h == 4) {
		return fmt.Sprintf("HCACK is %d, want %d (-1: a refusal)", h, wantH)
	}
	if len(it.List[1].List) != len(names) {
		return fmt.Sprintf("%d parameter codes, want %d", len(it.List[1].List), len(names))
	}
	for i, e := range it.List[1].List {
		if e.K != ref.L || len(e.List) != 2 || !isID(e.List[0], names[i]) || ack1(e.List[1]) < 0 || acks[i] >= 0 && ack1(e.List[1]) != acks[i] || acks[i] < 0 && ack1(e.List[1]) == 0 {
			return fmt.Sprintf("parameter code %d is %s, want %v %d", i, e, names[i], acks[i])
		}
	}
	return ""
}

func badRcmd(r *rand.Rand) ref.Item {
	m := genRcmd(r)
	for len(m.names) == 0 {
		m = genRcmd(r)
	}
	it := m.item(r)
	ps := it.List[1].List
	k := r.Intn(len(ps))
	switch r.Intn(9) {
	case 0:
		return ref.Item{}
	case 1:
		return ref.Lst()
	case 2:
		return it.List[0] // no list
	case 3:
		it.List[0] = notID(r)
	case 4: // the parameters are no list
		it.List[1] = ref.Gen(r, 0, 4)
		if it.List[1].K == ref.L || it.List[1].K == ref.None {
			it.List[1] = ref.Asc("x")
		}
	case 5: // a parameter is no list
		ps[k] = ref.GenScalar(r, 3)
	case 6:
		ps[k] = ref.Lst()
	default: // a parameter's name is no identifier
		ps[k].List[0] = notID(r)
	}
	return it
}

func p30(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(48, 320), func(label string, i int) { p30Wire(c, label, i) })
	jobs = addJobs(jobs, "pair", c.N(16, 96), func(label string, i int) { p30Pair(c, label, i) })
	jobs = addJobs(jobs, "host", c.N(16, 96), func(label string, i int) { p30Host(c, label, i) })
	gemJobs(c, 16, jobs)
}

func p30Wire(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	h := &rcmdHandler{}
	s.G.Events().RemoteCommandReceived.AddCallback(h.event)
	if !s.comm() {
		return
	}
	r := s.r
	installed := false
	for k := 0; k < c.N(150, 600) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		switch x := r.Intn(20); {
		case x == 0:
			if installed = r.Intn(3) > 0; installed {
				s.G.SetRemoteCommandHandler(h.handle)
			} else {
				s.G.SetRemoteCommandHandler(nil)
			}
			s.note("handler installed: %v", installed)
		case x < 4:
			b := badRcmd(r)
			h.plan(rcmdPlan{})
			s.note("malformed S2F41 %s", cutStr(b.String(), 200))
			it, ok := s.ask(2, 41, b)
			if !ok {
				return
			}
			if d := ackDiff(it, -1, nil, nil); d != "" {
				s.fail("malformed", "a malformed S2F41 %s is answered with %s: %s", cutStr(b.String(), 400), cutStr(it.String(), 200), d)
				return
			}
			if calls, ev := h.take(); len(calls)+len(ev) > 0 {
				s.fail("malformed", "a malformed S2F41 %s reached the handler (%d times) or was reported (%d times)", cutStr(b.String(), 400), len(calls), len(ev))
				return
			}
			c.Count("malformed commands refused", 1)
		case x < 5 && installed:
			p30Burst(s, h)
		default:
			m := genRcmd(r)
			p, wantH, names, acks := genRcmdPlan(r)
			h.plan(p)
			s.note("S2F41 %v with %d parameters, handler installed %v says %v, %v", m.id, len(m.names), installed, p.res, p.err)
			it, ok := s.ask(2, 41, m.item(r))
			if !ok {
				return
			}
			calls, ev := h.take()
			want := 1
			if !installed {
				want, wantH, names, acks = 0, int(gem.HCACKInvalidCommand), nil, nil
			}
			if len(calls) != want || len(ev) != 1 {
				s.fail("times", "a command reached the handler %d times (want %d) and was reported %d times", len(calls), want, len(ev))
				return
			}
			for _, req := range append(calls, ev...) {
				if d := m.diff(req); d != "" {
					s.fail("request", "command %v: the handler or event got %s", m.id, d)
					return
				}
			}
			if d := ackDiff(it, wantH, names, acks); d != "" {
				s.fail("answer", "the handler said %v, %v; the answer is %s: %s", p.res, p.err, cutStr(it.String(), 300), d)
				return
			}
			c.Count("commands compared", 1)
			c.Count("parameters compared", len(m.names))
			c.Max("parameters in one command", len(m.names))
			if i == 0 && k < 20 {
				c.Sample(map[string]any{"case": label, "command": cutStr(m.item(r).String(), 300), "answer": cutStr(it.String(), 300)})
			}
		}
	}
}

// p30Burst sends several commands without waiting for the answers.
func p30Burst(s *gemRig, h *rcmdHandler) {
	n := 2 + s.r.Intn(8)
	var ms []rcmd
	var msgs []ref.Msg
	var plans []rcmdPlan
	var wantH []int
	var names [][]gid
	var acks [][]int
	for i := 0; i < n; i++ {
		m := genRcmd(s.r)
		p, w, nn, aa := genRcmdPlan(s.r)
		ms, plans, wantH, names, acks = append(ms, m), append(plans, p), append(wantH, w), append(names, nn), append(acks, aa)
		msgs = append(msgs, ref.DataMsg(s.p.Session, 2, 41, true, s.p.NextSys(), m.item(s.r)))
	}
	h.plan(plans...)
	s.note("burst of %d commands", n)
	mark := s.p.Mark()
	for _, m := range msgs {
		if s.p.Send(m) != nil {
			s.c.Inconclusive("%s: connection lost in a burst", s.label)
			return
		}
	}
	for i, m := range msgs {
		got, ok := s.p.AwaitFrom(mark, mon.Hang, func(x ref.Msg) bool {
			return x.SType == ref.Data && x.Sys == m.Sys && x.Function() == 42
		})
		if !ok {
			s.fail("no-reply", "command %d of a burst of %d is not answered", i, n)
			return
		}
		it, err := got.Item()
		if err != nil {
			s.fail("undecodable-reply", "command %d of a burst of %d: %v", i, n, err)
			return
		}
		if d := ackDiff(it, wantH[i], names[i], acks[i]); d != "" {
			s.fail("answer", "command %d of a burst of %d: %s: %s", i, n, cutStr(it.String(), 300), d)
			return
		}
	}
	calls, ev := h.take()
	if len(calls) != n || len(ev) != n {
		s.fail("times", "a burst of %d commands reached the handler %d times and was reported %d times", n, len(calls), len(ev))
		return
	}
	for i := range calls {
		if d := ms[i].diff(calls[i]); d != "" {
			s.fail("request", "command %d of a burst of %d: the handler got %s", i, n, d)
			return
		}
	}
	s.c.Count("commands in bursts", n)
}

// goParam is a Go value for a parameter and the item it stands for.
func goParam(r *rand.Rand) (any, func(ref.Item) bool, string) {
	u := r.Uint64() >> uint(r.Intn(64))
	if r.Intn(3) == 0 {
		u = idNums[r.Intn(len(idNums))]
	}
	v := int64(u)
	if r.Intn(2) == 0 {
		v = -v
	}
	isI := func(x int64) func(ref.Item) bool {
		return func(it ref.Item) bool {
			return len(it.Words) == 1 && (it.IsInt() && it.SignedAt(0) == x || it.IsUint() && x >= 0 && it.Words[0] == uint64(x))
		}
	}
	isU := func(x uint64) func(ref.Item) bool {
		return func(it ref.Item) bool {
			return len(it.Words) == 1 && (it.IsUint() && it.Words[0] == x || it.IsInt() && it.SignedAt(0) >= 0 && uint64(it.SignedAt(0)) == x)
		}
	}
	is := func(want ref.Item) func(ref.Item) bool {
		return func(it ref.Item) bool { return ref.Equal(it.Normal(), want.Normal()) }
	}
	isF := func(x float64, kinds ...ref.Kind) func(ref.Item) bool {
		return func(it ref.Item) bool {
			return (it.K == kinds[0] || it.K == kinds[len(kinds)-1]) && len(it.Words) == 1 && math.Float64bits(it.FloatAt(0)) == math.Float64bits(x)
		}
	}
	switch r.Intn(18) {
	case 0:
		return nil, func(it ref.Item) bool {
			return it.K == ref.L && len(it.List) == 0 || it.K != ref.L && len(it.Words) == 0
		}, "nil"
	case 1:
		t := gemText(r, 300)
		return t, is(ref.Asc(t)), "string"
	case 2:
		b := make([]byte, r.Intn(300))
		r.Read(b)
		return b, is(ref.Bin(b...)), "[]byte"
	case 3:
		return true, is(ref.Bool(true)), "bool"
	case 4:
		return false, is(ref.Bool(false)), "bool"
	case 5:
		return int(v), isI(v), "int"
	case 6:
		return int8(v), isI(int64(int8(v))), "int8"
	case 7:
		return int16(v), isI(int64(int16(v))), "int16"
	case 8:
		return int32(v), isI(int64(int32(v))), "int32"
	case 9:
		return v, isI(v), "int64"
	case 10:
		return uint(u), isU(u), "uint"
	case 11:
		return uint8(u), isU(uint64(uint8(u))), "uint8"
	case 12:
		return uint16(u), isU(uint64(uint16(u))), "uint16"
	case 13:
		return uint32(u), isU(uint64(uint32(u))), "uint32"
	case 14:
		return u, isU(u), "uint64"
	case 15:
		f := math.Float32frombits(r.Uint32())
		if f-f != 0 {
			f = -0.5
		}
		return f, isF(float64(f), ref.F4, ref.F8), "float32"
	case 16:
		f := math.Float64frombits(r.Uint64())
		if f-f != 0 {
			f = -math.MaxFloat64
		}
		return f, isF(f, ref.F8), "float64"
	}
	it := ref.Gen(r, 3, 5)
	return ref.ToAST(it), is(it), "item"
}

// hostRcmd makes a host call's arguments and a test of the item that must be sent.
func hostRcmd(r *rand.Rand) (id gid, ps []gem.RemoteCommandParameterValue, names []gid, is []func(ref.Item) bool) {
	id = genID(r)
	n := r.Intn(6)
	if r.Intn(20) == 0 {
		n = 256 + r.Intn(10)
	}
	for i := 0; i < n; i++ {
		name := genID(r)
		v, f, _ := goParam(r)
		ps = append(ps, gem.RemoteCommandParameterValue{Name: name.goVal(r), Value: v})
		names, is = append(names, name), append(is, f)
	}
	return
}

func p30Pair(c *mon.Ctx, label string, i int) {
	s := newGemPair(c, label, nil)
	if s == nil {
		return
	}
	defer s.close()
	h := &rcmdHandler{}
	s.E.SetRemoteCommandHandler(h.handle)
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(100, 400) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		id, ps, names, is := hostRcmd(r)
		p, wantH, ackNames, acks := genRcmdPlan(r)
		h.plan(p)
		if r.Intn(20) == 0 {
			bad := append([]gem.RemoteCommandParameterValue(nil), ps...)
			var cmd any = id.goVal(r)
			switch {
			case r.Intn(3) == 0:
				cmd = notGoID(r)
			case r.Intn(2) == 0:
				bad = append(bad, gem.RemoteCommandParameterValue{Name: notGoID(r), Value: 1})
			default:
				vals := []any{struct{}{}, math.NaN(), math.Inf(1), float32(math.Inf(-1)), "\xe9", "é", []int{1}, time.Now()}
				bad = append(bad, gem.RemoteCommandParameterValue{Name: "x", Value: vals[r.Intn(len(vals))]})
			}
			if r.Intn(6) == 0 {
				cmd = "d\xe9marrer"
			}
			var res gem.RemoteCommandResult
			var err error
			if pv, _ := mon.Recover(func() { res, err = s.H.SendRemoteCommand(cmd, bad) }); pv != nil || err == nil {
				s.fail("host-bad", "command %#v %v, which cannot be encoded, gives %v, %v, panic %v", cmd, bad, res, err, pv)
			}
			if calls, _ := h.take(); len(calls) > 0 {
				s.fail("host-bad", "a command that cannot be encoded reached the handler")
			}
			continue
		}
		res, err := s.H.SendRemoteCommand(id.goVal(r), ps)
		s.note("SendRemoteCommand %v with %d parameters; handler says %v, %v; result %v, %v", id, len(ps), p.res, p.err, res, err)
		if err != nil {
			s.fail("host-call", "SendRemoteCommand: %v", err)
			return
		}
		calls, _ := h.take()
		if len(calls) != 1 {
			s.fail("times", "a host call reached the handler %d times", len(calls))
			return
		}
		if calls[0].CommandID != id.raw() || len(calls[0].Parameters) != len(ps) {
			s.fail("request", "command %v with %d parameters reached the handler as %#v with %d", id, len(ps), calls[0].CommandID, len(calls[0].Parameters))
			return
		}
		for j, x := range calls[0].Parameters {
			it, err := ref.FromAST(x.Value)
			if x.Identifier != names[j].raw() || err != nil || !is[j](it) {
				s.fail("request", "parameter %d, %v = %T %s, reached the handler as %#v = %s", j, names[j], ps[j].Value, nodeStr(ps[j].Value), x.Identifier, nodeStr(x.Value))
				return
			}
		}
		if d := resultDiff(res, wantH, ackNames, acks); d != "" {
			s.fail("result", "the handler said %v, %v; the host call gives %v: %s", p.res, p.err, res, d)
			return
		}
		c.Count("host calls compared", 1)
	}
	if _, err := s.E.SendRemoteCommand("x", nil); err == nil {
		s.fail("role", "an equipment may send a remote command")
	}
}

func resultDiff(res gem.RemoteCommandResult, wantH int, names []gid, acks []int) string {
	if h := int(res.HCACK); wantH >= 0 && h != wantH || wantH < 0 && (h == 0 || h == 4) {
		return fmt.Sprintf("HCACK is %d, want %d (-1: a refusal)", h, wantH)
	}
	if len(res.ParameterAcks) != len(names) {
		return fmt.Sprintf("%d parameter codes, want %d", len(res.ParameterAcks), len(names))
	}
	for i, a := range res.ParameterAcks {
		if a.Name != names[i].raw() || acks[i] >= 0 && int(a.Ack) != acks[i] || acks[i] < 0 && a.Ack == 0 {
			return fmt.Sprintf("parameter code %d is %v, want %v %d", i, a, names[i], acks[i])
		}
	}
	return ""
}

// p30Host: a raw equipment answers a library host.
func p30Host(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply, asked atomic.Pointer[ref.Item]
	var n atomic.Int32
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 2 && m.Function() == 41 {
			it, _ := m.Item()
			asked.Store(&it)
			n.Add(1)
			p.Send(ref.DataMsg(m.Session, 2, 42, false, m.Sys, *reply.Load()))
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(100, 400) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		id, ps, names, is := hostRcmd(r)
		_, wantH, ackNames, acks := genRcmdPlan(r)
		hc := wantH
		if hc < 0 {
			hc = 7 + r.Intn(249)
		}
		var es []ref.Item
		for j, a := range acks {
			if a < 0 {
				a = []int{64, 255}[r.Intn(2)]
			}
			es = append(es, ref.Lst(ackNames[j].wire(r), ref.Bin(byte(a))))
		}
		rep := ref.Lst(ref.Bin(byte(hc)), ref.Lst(es...))
		wrong := r.Intn(10) == 0
		if wrong {
			rep = []ref.Item{{}, ref.Lst(), ref.Asc("x"), ref.Lst(ref.Asc("x"), ref.Lst()), ref.Lst(ref.Item{K: ref.B}, ref.Lst())}[r.Intn(5)]
		}
		reply.Store(&rep)
		n.Store(0)
		res, err := s.G.SendRemoteCommand(id.goVal(r), ps)
		s.note("SendRemoteCommand %v answered %s: %v, %v", id, cutStr(rep.String(), 200), res, err)
		it := asked.Load()
		if n.Load() != 1 || it.K != ref.L || len(it.List) != 2 || !isID(it.List[0], id) || it.List[1].K != ref.L || len(it.List[1].List) != len(ps) {
			s.fail("sent", "command %v with %d parameters is sent %d times, as %s", id, len(ps), n.Load(), cutStr(it.String(), 300))
			return
		}
		for j, e := range it.List[1].List {
			if e.K != ref.L || len(e.List) != 2 || !isID(e.List[0], names[j]) || !is[j](e.List[1]) {
				s.fail("sent", "parameter %v = %T %s is sent as %s", names[j], ps[j].Value, nodeStr(ps[j].Value), cutStr(e.String(), 300))
				return
			}
		}
		if wrong {
			if err == nil {
				s.fail("host-malformed", "an answer %s gives %v and no error", rep, res)
			}
			continue
		}
		if err != nil {
			s.fail("host-call", "an answer %s gives %v", cutStr(rep.String(), 300), err)
			return
		}
		if d := resultDiff(res, wantH, ackNames, acks); d != "" {
			s.fail("result", "the answer %s gives %v: %s", cutStr(rep.String(), 300), res, d)
			return
		}
		c.Count("answers read by a host from a raw equipment", 1)
	}
}
