package props

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P35", Race: true, Run: p35,
		Rule: "one case is one GEM call, or one request of a peer, with its result and the traffic it caused judged; distinct by label and number",
		Assume: []string{"an answer that cannot be what was asked for: an abort (function 0), a header alone, or an item of numbers or booleans where a list, an acknowledge byte or text is due; a well-formed answer under another function number is unspecified",
			"T3 bounds are lower bounds only; a call that its T3 of 120 s outlives counts as returned when it returned at all within the watchdog time"}})
}

// hostCall is a call only a host can make.
type hostCall struct {
	name string
	s, f int
	do   func(g *gem.GemHandler, k int) (any, error) // k: which one of its kind
	good func(k int) ref.Item
	want func(k int) any // what do must return for good
}

func statusValues(v []gem.StatusValue) any {
	var out []string
	for _, x := range v {
		out = append(out, fmt.Sprint(x.ID, "=", x.Value))
	}
	return strings.Join(out, ",")
}

func constantValues(v []gem.EquipmentConstantValue) any {
	var out []string
	for _, x := range v {
		out = append(out, fmt.Sprint(x.ID, "=", x.Value))
	}
	return strings.Join(out, ",")
}

func u4(k int) ref.Item { return ref.Uint(ref.U4, uint64(k)) }

func ackItem(k int) ref.Item { return ref.Bin(byte(k)) }

var hostCalls = []hostCall{
	{"RequestStatusVariables", 1, 3, func(g *gem.GemHandler, k int) (any, error) {
		v, err := g.RequestStatusVariables(k)
		return statusValues(v), err
	}, func(k int) ref.Item { return ref.Lst(ref.Uint(ref.U8, uint64(k)*3)) }, func(k int) any { return fmt.Sprint(k, "=", ast.NewUintNode(8, k*3)) }},
	{"RequestStatusVariableInfo", 1, 11, func(g *gem.GemHandler, k int) (any, error) {
		v, err := g.RequestStatusVariableInfo(k)
		return fmt.Sprint(v), err
	}, func(k int) ref.Item { return ref.Lst(ref.Lst(u4(k), ref.Asc(fmt.Sprint("n", k)), ref.Asc("u"))) },
		func(k int) any {
			return fmt.Sprint([]gem.StatusVariableInfo{{ID: uint64(k), Name: fmt.Sprint("n", k), Unit: "u"}})
		}},
	{"RequestEquipmentConstants", 2, 13, func(g *gem.GemHandler, k int) (any, error) {
		v, err := g.RequestEquipmentConstants(k)
		return constantValues(v), err
	}, func(k int) ref.Item { return ref.Lst(ref.Asc(fmt.Sprint("c", k))) }, func(k int) any { return fmt.Sprint(k, "=", ast.NewASCIINode(fmt.Sprint("c", k))) }},
	{"RequestEquipmentConstantInfo", 2, 29, func(g *gem.GemHandler, k int) (any, error) {
		v, err := g.RequestEquipmentConstantInfo(k)
		if err != nil || len(v) != 1 {
			return fmt.Sprint(len(v)), err
		}
		return fmt.Sprint(v[0].ID, v[0].Name), err
	}, func(k int) ref.Item {
		return ref.Lst(ref.Lst(u4(k), ref.Asc(fmt.Sprint("n", k)), u4(0), u4(9), u4(5), ref.Asc("u")))
	}, func(k int) any { return fmt.Sprint(uint64(k), "n", k) }},
	{"SendEquipmentConstantValues", 2, 15, func(g *gem.GemHandler, k int) (any, error) {
		return g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: k, Value: ast.NewUintNode(4, k)}})
	}, func(k int) ref.Item { return ackItem(k % 5) }, func(k int) any { return k % 5 }},
	{"DefineReports", 2, 33, func(g *gem.GemHandler, k int) (any, error) {
		return g.DefineReports(gem.ReportDefinitionRequest{ReportID: k, VIDs: []interface{}{1, 2}})
	}, func(k int) ref.Item { return ackItem(k % 5) }, func(k int) any { return k % 5 }},
	{"LinkEventReports", 2, 35, func(g *gem.GemHandler, k int) (any, error) {
		return g.LinkEventReports(gem.EventReportLinkRequest{CEID: k, ReportIDs: []interface{}{1}})
	}, func(k int) ref.Item { return ackItem(k % 6) }, func(k int) any { return k % 6 }},
	{"EnableEventReports", 2, 37, func(g *gem.GemHandler, k int) (any, error) { return g.EnableEventReports(true, k) },
		func(k int) ref.Item { return ackItem(k % 2) }, func(k int) any { return k % 2 }},
	{"RequestCollectionEventReport", 6, 15, func(g *gem.GemHandler, k int) (any, error) {
		r, err := g.RequestCollectionEventReport(k)
		return fmt.Sprint(r.CEID, len(r.Reports)), err
	}, func(k int) ref.Item { return ref.Lst(u4(1), u4(k), ref.Lst()) }, func(k int) any { return fmt.Sprint(uint64(k), 0) }},
	{"UploadProcessProgram", 7, 3, func(g *gem.GemHandler, k int) (any, error) { return g.UploadProcessProgram(k, "text") },
		func(k int) ref.Item { return ackItem(k % 7) }, func(k int) any { return k % 7 }},
	{"RequestProcessProgram", 7, 5, func(g *gem.GemHandler, k int) (any, error) {
		b, _, err := g.RequestProcessProgram(k)
		return b, err
	}, func(k int) ref.Item { return ref.Lst(u4(k), ref.Asc(fmt.Sprint("body ", k))) }, func(k int) any { return fmt.Sprint("body ", k) }},
	{"SendRemoteCommand", 2, 41, func(g *gem.GemHandler, k int) (any, error) {
		r, err := g.SendRemoteCommand(fmt.Sprint(k), nil)
		return fmt.Sprint(int(r.HCACK), len(r.ParameterAcks)), err
	}, func(k int) ref.Item { return ref.Lst(ackItem(k%7), ref.Lst()) }, func(k int) any { return fmt.Sprint(k%7, 0) }},
	{"SendEnableAlarm", 5, 3, func(g *gem.GemHandler, k int) (any, error) {
		a, err := g.SendEnableAlarm([]int{k}, true)
		return int(a), err
	}, func(k int) ref.Item { return ackItem(k % 4) }, func(k int) any { return k % 4 }},
	{"RequestAlarmList", 5, 5, func(g *gem.GemHandler, k int) (any, error) {
		l, err := g.RequestAlarmList()
		return len(l), err
	}, func(int) ref.Item { return ref.Lst(ref.Lst(ref.Bin(0), u4(7), ref.Asc("t"))) }, func(int) any { return 1 }},
	{"RequestEnabledAlarmList", 5, 7, func(g *gem.GemHandler, k int) (any, error) {
		l, err := g.RequestEnabledAlarmList()
		return len(l), err
	}, func(int) ref.Item {
		return ref.Lst(ref.Lst(ref.Bin(0), u4(7), ref.Asc("t")), ref.Lst(ref.Bin(0), u4(8), ref.Asc("t")))
	}, func(int) any { return 2 }},
	{"RequestDateTime", 2, 17, func(g *gem.GemHandler, k int) (any, error) { return g.RequestDateTime() },
		func(int) ref.Item { return ref.Asc("2026010203040500") }, func(int) any { return "2026010203040500" }},
	{"SetDateTime", 2, 31, func(g *gem.GemHandler, k int) (any, error) {
		a, err := g.SetDateTime(fmt.Sprintf("20260102%06d00", 30000+k%60))
		return int(a), err
	}, func(int) ref.Item { return ackItem(1) }, func(int) any { return 1 }},
}

// eqCall is a call only an equipment can make.
type eqCall struct {
	name string
	do   func(g *gem.GemHandler) error
}

var eqCalls = []eqCall{
	{"RaiseAlarm", func(g *gem.GemHandler) error { return g.RaiseAlarm(1, true) }},
	{"RaiseAlarm clear", func(g *gem.GemHandler) error { return g.RaiseAlarm(1, false) }},
	{"ClearAlarm", func(g *gem.GemHandler) error { return g.ClearAlarm(1) }},
	{"TriggerCollectionEvent", func(g *gem.GemHandler) error { return g.TriggerCollectionEvent(1) }},
	{"RegisterDataVariable", func(g *gem.GemHandler) error {
		v, _ := gem.NewDataVariable(2, "v", gem.WithDataValue(ast.NewUintNode(1, 1)))
		return g.RegisterDataVariable(v)
	}},
	{"RegisterStatusVariable", func(g *gem.GemHandler) error {
		v, _ := gem.NewStatusVariable(3, "v", "", gem.WithStatusValue(ast.NewUintNode(1, 1)))
		return g.RegisterStatusVariable(v)
	}},
	{"RegisterEquipmentConstant", func(g *gem.GemHandler) error {
		v, _ := gem.NewEquipmentConstant(4, "v", ast.NewUintNode(1, 1))
		return g.RegisterEquipmentConstant(v)
	}},
	{"RegisterCollectionEvent", func(g *gem.GemHandler) error {
		v, _ := gem.NewCollectionEvent(1, "v")
		return g.RegisterCollectionEvent(v)
	}},
	{"RegisterProcessProgram", func(g *gem.GemHandler) error { return g.RegisterProcessProgram(1, "x") }},
}

func p35(c *mon.Ctx) {
	p35Nil(c)
	var jobs []gemJob
	jobs = addJobs(jobs, "roles", c.N(12, 60), func(label string, i int) { p35Roles(c, label, i) })
	jobs = addJobs(jobs, "answers", c.N(16, 120), func(label string, i int) { p35Answers(c, label, i) })
	jobs = addJobs(jobs, "crowd", c.N(12, 80), func(label string, i int) { p35Crowd(c, label, i) })
	jobs = addJobs(jobs, "silence", c.N(8, 40), func(label string, i int) { p35Silence(c, label, i) })
	jobs = addJobs(jobs, "handlers", c.N(12, 80), func(label string, i int) { p35Handlers(c, label, i) })
	gemJobs(c, 20, jobs)
}

// p35Nil: what is nothing is refused.
func p35Nil(c *mon.Ctx) {
	check := func(name string, f func() error) {
		var err error
		p, _ := mon.Recover(func() { err = f() })
		c.Case("nil"+name, true)
		if p != nil || err == nil {
			c.Violate("nil:"+name, nil, "%s: error %v, panic %v", name, err, p)
		}
	}
	check("NewGemHandler without a protocol", func() error { _, err := gem.NewGemHandler(gem.Options{}); return err })
	for _, kind := range []string{"equipment passive", "host passive"} {
		e, err := newLife(kind, nil)
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		g := e.g
		check(kind+": RegisterStatusVariable(nil)", func() error { return g.RegisterStatusVariable(nil) })
		check(kind+": RegisterDataVariable(nil)", func() error { return g.RegisterDataVariable(nil) })
		check(kind+": RegisterEquipmentConstant(nil)", func() error { return g.RegisterEquipmentConstant(nil) })
		check(kind+": RegisterCollectionEvent(nil)", func() error { return g.RegisterCollectionEvent(nil) })
		check(kind+": SendDataMessage(nil)", func() error { return g.Protocol().SendDataMessage(nil) })
		check(kind+": SendResponse(nil)", func() error { return g.Protocol().SendResponse(nil, []byte{0, 0, 0, 1}) })
		check(kind+": SendAndWait(nil)", func() error { _, err := g.Protocol().SendAndWait(nil); return err })
		e.close0(g)
	}
}

// quiet compares the data messages since mark with what may come: none but S1F1 and S1F13.
func (s *gemRig) quiet(mark int, what string) bool {
	if !s.p.Linktest(mon.Hang) {
		s.fail("no-barrier", "after %s: no answer to a linktest (closed %v)\n%s", what, s.p.Closed(), strings.Join(s.p.Log(12), "\n"))
		return false
	}
	for _, e := range s.p.ReceivedFrom(mark) {
		m := e.Msg
		if m.SType == ref.Data && m.PType == 0 && !(m.Stream() == 1 && (m.Function() == 1 || m.Function() == 13)) {
			s.fail("sent", "%s sent %s", what, m)
			return false
		}
	}
	return true
}

func p35Roles(c *mon.Ctx, label string, i int) {
	kind := lifeKindsGem[i%len(lifeKindsGem)]
	s := newGemRig(c, label, kind, nil)
	if s == nil {
		return
	}
	defer s.close()
	host := strings.HasPrefix(kind, "host")
	r := s.r
	var deaf atomic.Bool
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if deaf.Load() && m.SType == ref.Data && m.PType == 0 && m.Stream() == 1 && m.Function() == 13 {
			return true
		}
		return gemPeer(p, m)
	})
	var events atomic.Int64
	ev := s.G.Events()
	count := func(map[string]interface{}) { events.Add(1) }
	ev.AlarmReceived.AddCallback(count)
	ev.RemoteCommandReceived.AddCallback(count)
	ev.EventReportReceived.AddCallback(count)
	var handled atomic.Int64
	s.G.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		handled.Add(1)
		return gem.RemoteCommandResult{}, nil
	})
	s.G.SetProcessProgramUploadHandler(func(interface{}, string) int { handled.Add(1); return 0 })
	s.G.SetClockSyncHandler(func(time.Time) (byte, error) { handled.Add(1); return 0, nil })

	// calls, while communication is as comm says
	calls := func(comm bool, n int) bool {
		for ; n > 0; n-- {
			c.Case(fmt.Sprint(label, comm, n), true)
			mark := 0
			if s.p != nil {
				mark = s.p.Mark()
			}
			var err error
			var got any
			var want error
			var name string
			if r.Intn(2) == 0 {
				k := hostCalls[r.Intn(len(hostCalls))]
				name = k.name
				switch {
				case !host:
					want = gem.ErrOperationNotSupported
				case !comm:
					want = gem.ErrNotCommunicating
				default:
					continue // other jobs
				}
				if !mon.Within(mon.Hang, func() { got, err = k.do(s.G, r.Intn(1000)) }) {
					s.fail("hangs", "%s does not return", name)
					return false
				}
			} else {
				k := eqCalls[r.Intn(len(eqCalls))]
				name = k.name
				switch {
				case host:
					want = gem.ErrOperationNotSupported
				case !comm && (strings.Contains(name, "Alarm") || strings.HasPrefix(name, "Trigger")):
					want = gem.ErrNotCommunicating
				default:
					continue
				}
				err = k.do(s.G)
			}
			s.note("%s (communicating %v): %v", name, comm, err)
			if !errors.Is(err, want) {
				s.fail("call:"+name, "%s of %s, communicating %v, gives %v, %v; want %v", name, kind, comm, got, err, want)
				return false
			}
			c.Count("calls refused", 1)
			if s.p != nil && !s.p.Closed() && r.Intn(4) == 0 && !s.quiet(mark, name) {
				return false
			}
		}
		return true
	}
	if !calls(false, 20) {
		return
	}
	s.G.Enable()
	if !calls(false, 10) {
		return
	}
	deaf.Store(true) // selected, not communicating
	p, err := s.e.up(mon.Hang)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	s.p = p
	if !calls(false, 20) {
		return
	}
	deaf.Store(false)
	s.p.Close()
	if !s.link() {
		return
	}
	for k := 0; k < c.N(60, 300) && !s.isBad(); k++ {
		if r.Intn(2) == 0 {
			if !calls(true, 3) {
				return
			}
			continue
		}
		// a request of the wrong kind
		c.Case(fmt.Sprint(label, "request", k), true)
		var st, fn int
		var body ref.Item
		if host {
			x := hostCalls[r.Intn(len(hostCalls))]
			st, fn = x.s, x.f
			body = []ref.Item{ref.Lst(), ref.Lst(u4(1)), u4(1), ref.Lst(u4(1), ref.Lst()), ref.Asc("2026010203040500"), {}, ref.Lst(ref.Asc("START"), ref.Lst())}[r.Intn(7)]
			if r.Intn(6) == 0 {
				st, fn, body = 1, []int{15, 17}[r.Intn(2)], ref.Item{}
			}
		} else {
			st, fn, body = 5, 1, ref.Lst(ref.Bin(128), u4(3), ref.Asc("t"))
			if r.Intn(2) == 0 {
				st, fn, body = 6, 11, ref.Lst(u4(1), u4(2), ref.Lst())
			}
		}
		mark := s.p.Mark()
		m := ref.DataMsg(s.p.Session, st, fn, r.Intn(3) > 0, s.p.NextSys(), body)
		s.note("request %s", m)
		s.p.Send(m)
		isS9 := func(x ref.Msg) bool { return x.SType == ref.Data && x.PType == 0 && x.Stream() == 9 }
		if _, ok := s.p.AwaitFrom(mark, mon.Hang, isS9); !ok {
			s.fail("served", "%s is sent to a %s, and no S9F3 or S9F5 comes\n%s", m, kind, strings.Join(s.p.Log(6), "\n"))
			return
		}
		if !s.p.Linktest(mon.Hang) {
			s.fail("no-barrier", "no answer to a linktest")
			return
		}
		n := 0
		for _, e := range s.p.ReceivedFrom(mark) {
			x := e.Msg
			if isS9(x) && (x.Function() == 3 || x.Function() == 5) {
				n++
			} else if x.SType == ref.Data && x.PType == 0 && !(x.Stream() == 1 && (x.Function() == 1 || x.Function() == 13)) {
				s.fail("served", "%s, sent to a %s, is answered with %s", m, kind, x)
				return
			}
		}
		if n != 1 || events.Load() > 0 || handled.Load() > 0 {
			s.fail("served", "%s, sent to a %s, makes %d S9F3/S9F5, %d events and %d handler calls", m, kind, n, events.Load(), handled.Load())
			return
		}
		c.Count("requests of the other role refused", 1)
	}
	if s.isBad() {
		return
	}
	// and again when it is gone
	if !mon.Within(mon.Hang, s.G.Disable) {
		s.fail("disable-hangs", "Disable does not return")
		return
	}
	s.p = nil
	calls(false, 10)
	if host && len(s.G.ListProcessPrograms()) > 0 {
		s.fail("kept", "a host keeps %v", s.G.ListProcessPrograms())
	}
}

var lifeKindsGem = []string{"equipment passive", "host passive", "equipment active", "host active"}

var noAck = []ref.Item{ref.Lst(), {K: ref.B}, ref.Asc("0"), ref.Lst(ref.Asc("0")), ref.Lst(ref.Lst()), ref.Lst(ref.Uint(ref.U1, 0)), ref.Lst(ref.Item{K: ref.B})}

// wrongShapes are answers of lists, text and bytes that some calls cannot take for a result.
var wrongShapes = map[[2]int][]ref.Item{
	{2, 15}: noAck, {2, 33}: noAck, {2, 35}: noAck, {2, 37}: noAck, {7, 3}: noAck, {5, 3}: noAck, {2, 31}: {ref.Lst(), {K: ref.B}, ref.Asc("0")},
	{2, 17}: {ref.Lst(), ref.Bin(1), {K: ref.B}, ref.Lst(ref.Bin(0))},
	{2, 41}: {ref.Lst(), ref.Lst(ref.Asc("0"), ref.Lst()), ref.Lst(ref.Item{K: ref.B}, ref.Lst()), ref.Asc("0"), ref.Lst(ref.Lst(), ref.Lst())},
	{1, 3}:  {ref.Lst(), ref.Asc("5"), ref.Bin(0)}, {2, 13}: {ref.Lst(), ref.Asc("5"), ref.Bin(0)},
	{1, 11}: {ref.Asc("5"), ref.Bin(0), ref.Lst(ref.Asc("x")), ref.Lst(u4(1))}, {2, 29}: {ref.Asc("5"), ref.Bin(0), ref.Lst(ref.Asc("x")), ref.Lst(u4(1))},
	{6, 15}: {ref.Lst(), ref.Asc("5"), ref.Bin(0), ref.Lst(u4(1)), ref.Lst(u4(1), u4(5), ref.Asc("x")), ref.Lst(u4(1), ref.Lst(), ref.Lst())},
	{7, 5}:  {ref.Lst(), ref.Asc("5"), ref.Bin(0), ref.Lst(u4(1)), ref.Lst(u4(1), u4(5))},
	{5, 5}:  {ref.Asc("5"), ref.Bin(0)}, {5, 7}: {ref.Asc("5"), ref.Bin(0)},
}

// wrongAnswer is an answer that no host call can take for a result.
func wrongAnswer(r *rand.Rand, m ref.Msg) ref.Msg {
	switch r.Intn(4) {
	case 0:
		return ref.DataMsg(m.Session, m.Stream(), 0, false, m.Sys, ref.Item{})
	case 1:
		return ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, ref.Item{})
	}
	more := wrongShapes[[2]int{m.Stream(), m.Function()}]
	if len(more) > 0 && r.Intn(2) == 0 {
		return ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, more[r.Intn(len(more))])
	}
	it := []ref.Item{ref.Uint(ref.U4, 0), ref.Uint(ref.U1, 0, 0), ref.Float(ref.F8, 1.5), ref.Bool(true), ref.Bool(false), ref.Int(ref.I1, 0), {K: ref.U4}, {K: ref.BOOL}}[r.Intn(8)]
	return ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, it)
}

// p35Answers: one call after the other, answered rightly or wrongly.
func p35Answers(c *mon.Ctx, label string, i int) {
	fragile := i%4 > 1 // connections are lost; a short T3, which a slow machine may miss
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], func(t *hsms.SecsTimeout) {
		if fragile {
			t.SetT3ReplyTimeout(2)
		}
	})
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	var answer atomic.Pointer[func(p *peer.Peer, m ref.Msg)]
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if f := answer.Load(); f != nil && m.SType == ref.Data && m.PType == 0 && m.W() && !(m.Stream() == 1 && (m.Function() == 1 || m.Function() == 13)) {
			(*f)(p, m)
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	for n := 0; n < c.N(120, 500) && !s.isBad(); n++ {
		call := hostCalls[r.Intn(len(hostCalls))]
		k := 1 + r.Intn(200)
		c.Case(fmt.Sprint(label, n), true)
		var asked, sent ref.Msg
		asks := 0
		good := r.Intn(3) == 0
		lost := fragile && !good && r.Intn(8) == 0
		early := r.Intn(2) == 0
		f := func(p *peer.Peer, m ref.Msg) {
			asked = m
			asks++
			switch {
			case lost && early:
				p.Send(ref.Ctrl(ref.SeparateReq, m.Session, p.NextSys()))
				p.Close()
				return
			case lost:
				p.Reset()
				return
			case good:
				sent = ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, call.good(k))
			default:
				sent = wrongAnswer(r, m)
			}
			p.Send(sent)
		}
		answer.Store(&f)
		var got any
		var err error
		start := time.Now()
		if !mon.Within(mon.Hang, func() { got, err = call.do(s.G, k) }) {
			s.fail("hangs", "%s does not return (answer %s, connection lost %v)", call.name, sent, lost)
			return
		}
		answer.Store(nil)
		s.note("%s %d, answered %s (lost %v): %v, %v", call.name, k, cutStr(sent.String(), 150), lost, got, err)
		switch {
		case fragile && !lost && errors.Is(err, hsms.ErrT3Timeout):
			c.Count("calls a slow machine answers too late", 1)
			continue
		case good && (err != nil || fmt.Sprint(got) != fmt.Sprint(call.want(k))):
			s.fail("good:"+call.name, "%s(%d), answered %s, gives %v, %v; want %v", call.name, k, sent, got, err, call.want(k))
			return
		case !good && err == nil:
			s.fail("bad:"+call.name, "%s(%d), answered %s (connection lost %v), gives %v and no error", call.name, k, sent, lost, got)
			return
		case errors.Is(err, hsms.ErrT3Timeout) && !lost:
			s.fail("t3:"+call.name, "%s(%d), answered %s, gives %v after %v", call.name, k, sent, err, time.Since(start))
			return
		}
		if asked.Stream() != call.s || asked.Function() != call.f {
			s.fail("asked:"+call.name, "%s sends %s", call.name, asked)
			return
		}
		what := "good"
		if lost {
			what = "lost"
		} else if !good {
			what = "wrong"
		}
		c.Count("calls answered: "+what, 1)
		if lost {
			if !mon.Eventually(mon.Hang, func() bool { return s.p.Closed() }) || !s.link() {
				if !s.isBad() {
					c.Inconclusive("%s: no connection again", label)
				}
				return
			}
			continue
		}
		if asks != 1 {
			s.fail("sent", "%s sends %d requests", call.name, asks)
			return
		}
	}
}

// reqKey reads which call of its kind a request is.
func reqKey(m ref.Msg) int {
	it, err := m.Item()
	if err != nil {
		return -1
	}
	var find func(it ref.Item) int
	find = func(it ref.Item) int {
		switch {
		case it.K == ref.L:
			for _, x := range it.List {
				if k := find(x); k >= 1000 {
					return k
				}
			}
		case it.K == ref.A:
			var k int
			if _, err := fmt.Sscan(it.Str(), &k); err == nil {
				return k
			}
		case (it.IsUint() || it.IsInt()) && len(it.Words) == 1:
			return int(it.Words[0])
		}
		return -1
	}
	return find(it)
}

// p35Crowd: many calls at once, answered out of order, rightly or wrongly as their key says.
func p35Crowd(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	byFn := map[[2]int]hostCall{}
	var keyed []hostCall
	for _, k := range hostCalls {
		switch k.name {
		case "RequestAlarmList", "RequestEnabledAlarmList", "RequestDateTime", "SetDateTime":
		default:
			byFn[[2]int{k.s, k.f}] = k
			keyed = append(keyed, k)
		}
	}
	var mu sync.Mutex
	var waiting []func()
	pr := rand.New(rand.NewSource(s.r.Int63()))
	flush := func() {
		mu.Lock()
		defer mu.Unlock()
		pr.Shuffle(len(waiting), func(a, b int) { waiting[a], waiting[b] = waiting[b], waiting[a] })
		for _, f := range waiting {
			f()
		}
		waiting = nil
	}
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		k, ok := byFn[[2]int{m.Stream(), m.Function()}]
		if m.SType != ref.Data || m.PType != 0 || !ok {
			return gemPeer(p, m)
		}
		n := reqKey(m)
		mu.Lock()
		waiting = append(waiting, func() {
			if n < 1000 || n%3 == 0 {
				p.Send(wrongAnswer(pr, m))
			} else {
				p.Send(ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, k.good(n)))
			}
		})
		full := len(waiting) > 5
		mu.Unlock()
		if full {
			flush()
		}
		return true
	})
	if !s.comm() {
		return
	}
	stop := make(chan struct{})
	var ticker sync.WaitGroup
	ticker.Add(1)
	go func() {
		defer ticker.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Millisecond):
				flush()
			}
		}
	}()
	ok := mon.Within(2*mon.Hang, func() {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wr := rand.New(rand.NewSource(s.r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < c.N(60, 300) && !s.isBad(); n++ {
					k := keyed[wr.Intn(len(keyed))]
					key := 1000 + wr.Intn(100000)
					got, err := k.do(s.G, key)
					c.Case(fmt.Sprint(label, w, n), true)
					if key%3 == 0 && err == nil {
						s.fail("crowd", "%s(%d), answered wrongly, gives %v and no error", k.name, key, got)
					}
					if key%3 != 0 && (err != nil || fmt.Sprint(got) != fmt.Sprint(k.want(key))) {
						s.fail("crowd", "%s(%d), one of many at once, gives %v, %v; want %v", k.name, key, got, err, k.want(key))
					}
					c.Count("concurrent calls judged", 1)
				}
			}()
		}
		wg.Wait()
	})
	close(stop)
	ticker.Wait()
	if !ok && !s.isBad() {
		s.fail("hangs", "concurrent calls do not return")
	}
}

// p35Silence: nobody answers; every call fails, no earlier than T3, and late answers help nobody.
func p35Silence(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], func(t *hsms.SecsTimeout) { t.SetT3ReplyTimeout(1) })
	if s == nil {
		return
	}
	defer s.close()
	var mute atomic.Bool
	var mu sync.Mutex
	var asked []ref.Msg
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if mute.Load() && m.SType == ref.Data && m.PType == 0 && m.W() {
			mu.Lock()
			asked = append(asked, m)
			mu.Unlock()
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	for round := 0; round < c.N(3, 10) && !s.isBad(); round++ {
		mute.Store(true)
		var wg sync.WaitGroup
		ok := mon.Within(mon.Hang, func() {
			for n, k := range hostCalls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					start := time.Now()
					got, err := k.do(s.G, 1+n)
					d := time.Since(start)
					c.Case(fmt.Sprint(label, round, n), true)
					c.Count("calls nobody answers", 1)
					if err == nil || !errors.Is(err, hsms.ErrT3Timeout) {
						s.fail("silent:"+k.name, "%s, not answered, gives %v, %v", k.name, got, err)
					} else if d < time.Second {
						s.fail("early:"+k.name, "%s fails after %v, T3 is 1 s", k.name, d)
					}
				}()
			}
			wg.Wait()
		})
		if !ok {
			s.fail("hangs", "calls nobody answers do not return")
			return
		}
		mu.Lock()
		late := asked
		asked = nil
		mu.Unlock()
		if len(late) != len(hostCalls) {
			s.fail("sent", "%d calls made %d requests", len(hostCalls), len(late))
			return
		}
		mute.Store(false)
		for _, m := range late { // too late: all of them name the wrong time
			s.p.Send(ref.DataMsg(m.Session, m.Stream(), m.Function()+1, false, m.Sys, ref.Asc("1999010203040500")))
		}
		var got string
		var err error
		if mon.Within(mon.Hang, func() { got, err = s.G.RequestDateTime() }) && errors.Is(err, hsms.ErrT3Timeout) {
			c.Count("calls a slow machine answers too late", 1)
		} else if err != nil || got != "2026010203040500" {
			s.fail("after", "after late answers RequestDateTime gives %q, %v", got, err)
			return
		}
	}
}

// p35Handlers: handlers of one's own for streams and functions, before the built-in ones, and a default.
func p35Handlers(c *mon.Ctx, label string, i int) {
	kind := lifeKindsGem[i%len(lifeKindsGem)]
	s := newGemRig(c, label, kind, nil)
	if s == nil {
		return
	}
	defer s.close()
	r := s.r
	if !s.comm() {
		return
	}
	// the functions it has handlers of its own for, and some it does not
	builtin := map[[2]int]bool{{1, 1}: true, {1, 13}: true}
	if strings.HasPrefix(kind, "host") {
		builtin[[2]int{5, 1}], builtin[[2]int{6, 11}] = true, true
	} else {
		for _, k := range hostCalls {
			builtin[[2]int{k.s, k.f}] = true
		}
		builtin[[2]int{1, 15}], builtin[[2]int{1, 17}] = true, true
	}
	var pool [][2]int
	for k := range builtin {
		if k != [2]int{1, 13} && k != [2]int{1, 1} {
			pool = append(pool, k)
		}
	}
	sortPairs(pool)
	pool = append(pool, [2]int{64, 1}, [2]int{64, 3}, [2]int{1, 99}, [2]int{2, 101}, [2]int{127, 253}, [2]int{10, 3}, [2]int{5, 97})
	own := map[[2]int]int{}
	removed := map[[2]int]bool{}
	def := 0
	var calls sync.Map
	next := 0
	make := func(id int) gem.StreamFunctionHandler {
		return func(m *ast.DataMessage) (*ast.DataMessage, error) {
			v, _ := calls.LoadOrStore(id, new(atomic.Int64))
			v.(*atomic.Int64).Add(1)
			return dataNode(m.StreamCode(), m.FunctionCode()+1, 0, ref.Asc(fmt.Sprint("by ", id))), nil
		}
	}
	for k := 0; k < c.N(150, 600) && !s.isBad(); k++ {
		x := pool[r.Intn(len(pool))]
		switch r.Intn(6) {
		case 0:
			next++
			s.G.RegisterStreamFunctionHandler(x[0], x[1], make(next))
			own[x] = next
			s.note("handler %d for S%dF%d", next, x[0], x[1])
			continue
		case 1:
			if own[x] > 0 || r.Intn(4) == 0 {
				s.G.RegisterStreamFunctionHandler(x[0], x[1], nil)
				delete(own, x)
				removed[x] = true
				s.note("no handler for S%dF%d", x[0], x[1])
			}
			continue
		case 2:
			if r.Intn(3) > 0 {
				next++
				s.G.RegisterDefaultStreamHandler(make(next))
				def = next
			} else {
				s.G.RegisterDefaultStreamHandler(nil)
				def = 0
			}
			s.note("default handler %d", def)
			continue
		}
		by := own[x]
		if by == 0 && builtin[x] && !removed[x] {
			continue // the built-in one: other properties
		}
		if by == 0 {
			by = def
		}
		c.Case(fmt.Sprint(label, k), true)
		before := count(&calls, by)
		total := countAll(&calls)
		mark := s.p.Mark()
		m := ref.DataMsg(s.p.Session, x[0], x[1], true, s.p.NextSys(), []ref.Item{{}, ref.Lst(), ref.Asc("x")}[r.Intn(3)])
		s.p.Send(m)
		reply, ok := s.p.AwaitFrom(mark, mon.Hang, func(a ref.Msg) bool {
			return a.SType == ref.Data && a.PType == 0 && (a.Stream() == 9 || a.Sys == m.Sys && !a.W())
		})
		if !ok {
			s.fail("handler", "S%dF%d, handler %d, gets no answer", x[0], x[1], by)
			return
		}
		if by == 0 {
			if reply.Stream() != 9 || reply.Function() != 3 && reply.Function() != 5 || countAll(&calls) != total {
				s.fail("handler", "S%dF%d, which has no handler, is answered with %s; handler calls %d, before %d", x[0], x[1], reply, countAll(&calls), total)
			}
			c.Count("requests without a handler", 1)
			continue
		}
		it, _ := reply.Item()
		if reply.Stream() != x[0] || reply.Function() != (x[1]+1)&255 || it.K != ref.A || it.Str() != fmt.Sprint("by ", by) || count(&calls, by) != before+1 || countAll(&calls) != total+1 {
			s.fail("handler", "S%dF%d, handler %d, is answered with %s; calls of it %d, before %d", x[0], x[1], by, reply, count(&calls, by), before)
			return
		}
		c.Count("requests answered by a handler of the application's", 1)
	}
}

func sortPairs(p [][2]int) {
	for a := range p {
		for b := a + 1; b < len(p); b++ {
			if p[b][0] < p[a][0] || p[b][0] == p[a][0] && p[b][1] < p[a][1] {
				p[a], p[b] = p[b], p[a]
			}
		}
	}
}

func count(m *sync.Map, id int) int64 {
	if v, ok := m.Load(id); ok {
		return v.(*atomic.Int64).Load()
	}
	return 0
}

func countAll(m *sync.Map) (n int64) {
	m.Range(func(_, v any) bool { n += v.(*atomic.Int64).Load(); return true })
	return
}
