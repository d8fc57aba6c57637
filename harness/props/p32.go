package props

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	phsms "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
	"github.com/younglifestyle/secs4go/utils"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	mon.RaceProp = "P32"
	reg(&mon.Check{ID: "P32", Race: true, Run: p32,
		Rule: "one case is a pair of operations of the public API observed running at the same time on the same object under the race detector; distinct by group, endpoint kind and the two operations",
		Assume: []string{"a race counts when both accesses are made by code of the library",
			"timers, exported fields such as OnS9Error and codec type registrations are set before the object is used",
			"the workers share no synchronisation of the harness's own, so that none hides a race; overlap is computed afterwards from local logs"}})
}

// rop is one operation of the API; w is its weight.
type rop struct {
	name string
	w    int
	f    func(r *rand.Rand)
}

type ropSpan struct {
	op     int
	t0, t1 time.Duration
}

// storm runs the operations from several goroutines and reports which overlapped.
func storm(c *mon.Ctx, label, kind string, workers int, d time.Duration, ops []rop) {
	total := 0
	for _, o := range ops {
		total += o.w
	}
	logs := make([][]ropSpan, workers)
	start := time.Now()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		r := c.Rng(fmt.Sprintf("%s-%d", label, w))
		go func() {
			defer wg.Done()
			var l []ropSpan
			for {
				t0 := time.Since(start)
				if t0 > d {
					break
				}
				k := r.Intn(total)
				i := 0
				for k >= ops[i].w {
					k -= ops[i].w
					i++
				}
				ops[i].f(r)
				if len(l) < 40000 {
					l = append(l, ropSpan{i, t0, time.Since(start)})
				}
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
			logs[w] = l
		}()
	}
	if !mon.Within(d+2*mon.Hang, wg.Wait) {
		c.Inconclusive("%s: the workers do not end\n%s", label, head(mon.LibStacks(), 3000))
		return
	}
	pairs := map[[2]int]bool{}
	n := 0
	for a := 0; a < workers; a++ {
		n += len(logs[a])
		for b := a + 1; b < workers; b++ {
			la, lb := logs[a], logs[b]
			for i, j := 0, 0; i < len(la) && j < len(lb); {
				x, y := la[i], lb[j]
				if x.t0 <= y.t1 && y.t0 <= x.t1 {
					p := [2]int{x.op, y.op}
					if p[0] > p[1] {
						p[0], p[1] = p[1], p[0]
					}
					pairs[p] = true
				}
				if x.t1 < y.t1 {
					i++
				} else {
					j++
				}
			}
		}
	}
	c.Count("operations", n)
	var keys [][2]int
	for p := range pairs {
		keys = append(keys, p)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	for i, p := range keys {
		c.Case(fmt.Sprintf("%s|%s|%s", kind, ops[p[0]].name, ops[p[1]].name), true)
		if i%97 == 0 {
			c.Sample(map[string]any{"group": kind, "overlapped": []string{ops[p[0]].name, ops[p[1]].name}})
		}
	}
}

func p32(c *mon.Ctx) {
	type job struct {
		label string
		f     func(label string, i int)
		i     int
	}
	var jobs []job
	add := func(name string, n int, f func(string, int)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{fmt.Sprintf("%s-%d", name, i), f, i})
		}
	}
	add("gem", c.N(4, 40), func(l string, i int) { p32Gem(c, l, i) })
	add("hsms", c.N(4, 40), func(l string, i int) { p32Hsms(c, l, i) })
	add("adopt", c.N(2, 12), func(l string, i int) { p32Adopt(c, l, i) })
	add("link", c.N(3, 20), func(l string, i int) { p32Link(c, l, i) })
	add("values", c.N(3, 16), func(l string, i int) { p32Values(c, l, i) })
	mon.Parallel(4, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 0 {
			return
		}
		defer c.Begin(j.label)()
		j.f(j.label, j.i)
	})
}

func p32Time(c *mon.Ctx) time.Duration {
	if c.Thorough() {
		return 12 * time.Second
	}
	return 4 * time.Second
}

var _ = io.Discard

type discardLog struct{}

func (discardLog) Debug(string, ...interface{}) {}
func (discardLog) Info(string, ...interface{})  {}
func (discardLog) Warn(string, ...interface{})  {}
func (discardLog) Error(string, ...interface{}) {}

type nullWriter struct{}

func (nullWriter) Write(b []byte) (int, error) { return len(b), nil }

func raceLogging(r *rand.Rand) hsms.LoggingConfig {
	cfg := hsms.LoggingConfig{Enabled: r.Intn(4) > 0, Mode: hsms.LoggingMode(r.Intn(4)), IncludeControlMessages: r.Intn(2) == 0, Writer: nullWriter{}}
	if r.Intn(2) == 0 {
		cfg.ExcludedControlMessageTypes = map[string]struct{}{"linktest.req": {}}
	}
	return cfg
}

// protoOps are the operations of an endpoint, whatever is on the other side.
func protoOps(pre string, p *hsms.HsmsProtocol) []rop {
	shared := dataNode(1, 3, 0, ref.Lst(ref.Uint(ref.U4, 1)))
	sharedW := dataNode(1, 3, 1, ref.Lst(ref.Uint(ref.U4, 1)))
	h := func(m *ast.DataMessage) (*ast.DataMessage, error) {
		_ = m.String()
		return dataNode(m.StreamCode(), m.FunctionCode()+1, 0, ref.Lst()), nil
	}
	return []rop{
		{pre + "SendDataMessage", 6, func(r *rand.Rand) { p.SendDataMessage(shared) }},
		{pre + "SendAndWait", 6, func(r *rand.Rand) { p.SendAndWait(sharedW) }},
		{pre + "SendAndWait unknown", 2, func(r *rand.Rand) { p.SendAndWait(dataNode(30, 1, 1, ref.Lst())) }},
		{pre + "SendResponse", 2, func(r *rand.Rand) {
			p.SendResponse(dataNode(1, 4, 0, ref.Lst()), binary.BigEndian.AppendUint32(nil, uint32(r.Intn(1000))))
		}},
		{pre + "RegisterHandler", 3, func(r *rand.Rand) {
			f := hsms.DataMessageHandler(h)
			if r.Intn(3) == 0 {
				f = nil
			}
			p.RegisterHandler(20, 1+2*r.Intn(4), f)
		}},
		{pre + "RegisterDefaultHandler", 1, func(r *rand.Rand) {
			if r.Intn(2) == 0 {
				p.RegisterDefaultHandler(h)
			} else {
				p.RegisterDefaultHandler(nil)
			}
		}},
		{pre + "send to handler", 3, func(r *rand.Rand) { p.SendDataMessage(dataNode(20, 1+2*r.Intn(4), r.Intn(2), ref.Lst())) }},
		{pre + "SetLogger", 1, func(r *rand.Rand) { p.SetLogger([]common.Logger{nil, discardLog{}, common.NopLogger()}[r.Intn(3)]) }},
		{pre + "ConfigureLogging", 1, func(r *rand.Rand) { p.ConfigureLogging(raceLogging(r)) }},
		{pre + "state", 3, func(r *rand.Rand) { p.Connected(); p.CurrentState(); p.ConnectionCount() }},
		{pre + "Timeouts", 1, func(r *rand.Rand) {
			t := p.Timeouts()
			t.T3ReplyTimeout()
			t.Linktest()
			t.AutoReconnect()
			t.DeviceID()
		}},
	}
}

func raceTimers(t *hsms.SecsTimeout) {
	t.SetT3ReplyTimeout(1)
	t.SetT5ConnSeparateTimeout(0)
	t.SetT6ControlTransTimeout(1)
	t.SetT7NotSelectTimeout(1)
	t.SetT8NetworkIntercharTimeout(1)
	t.SetLinktest(1)
	t.SetMaxReconnectAttempts(0)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
}

// p32Hsms is two library endpoints on one line, or one of them against a raw peer.
func p32Hsms(c *mon.Ctx, label string, i int) {
	host, port := peer.Addr()
	mk := func(active bool) *hsms.HsmsProtocol {
		p := hsms.NewHsmsProtocol(host, port, active, 11, "race")
		raceTimers(p.Timeouts())
		p.OnS9Error = func(*hsms.S9ErrorInfo) {}
		p.RegisterHandler(1, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			return dataNode(1, 4, 0, ref.Lst(ref.Asc("x"))), nil
		})
		p.SetLogger(discardLog{})
		p.Enable()
		return p
	}
	a, b := mk(false), mk(true)
	defer mon.Within(mon.Hang, func() { a.Disable(); b.Disable() })
	mon.Eventually(mon.Hang, func() bool { return b.CurrentState() == hsms.StateConnectedSelected })
	ops := append(protoOps("passive ", a), protoOps("active ", b)...)
	if i%2 == 1 {
		toggle := func(p *hsms.HsmsProtocol) func(*rand.Rand) {
			return func(r *rand.Rand) {
				if r.Intn(12) > 0 {
					p.Enable()
					return
				}
				p.Disable()
				p.Enable()
			}
		}
		ops = append(ops, rop{"passive toggle", 1, toggle(a)}, rop{"active toggle", 1, toggle(b)},
			rop{"intruder", 1, func(r *rand.Rand) { // a connection that ends in all sorts of ways
				conn, err := net.DialTimeout("tcp", peer.HostPort(host, port), time.Second)
				if err != nil {
					return
				}
				conn.Write(ref.Ctrl(ref.SelectReq, 11, r.Uint32()).Bytes())
				if r.Intn(2) == 0 {
					conn.Write(ref.Ctrl(9, 0xFFFF, r.Uint32()).Bytes())
				}
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				if r.Intn(2) == 0 {
					conn.(*net.TCPConn).SetLinger(0)
				}
				conn.Close()
			}})
	}
	storm(c, label, "hsms"+fmt.Sprint(i%2), 10, p32Time(c), ops)
	c.Max("connections of one endpoint", int(a.ConnectionCount()))
}

// p32Adopt is an endpoint without a session of its own, which takes the one the peer selects.
func p32Adopt(c *mon.Ctx, label string, i int) {
	host, port := peer.Addr()
	p := hsms.NewHsmsProtocol(host, port, false, []int{0, 0xFFFF}[i%2], "race")
	raceTimers(p.Timeouts())
	p.SetLogger(discardLog{})
	p.RegisterHandler(1, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) { return dataNode(1, 4, 0, ref.Lst()), nil })
	p.Enable()
	defer mon.Within(mon.Hang, p.Disable)
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		r := c.Rng(label + "-peer")
		for {
			select {
			case <-stop:
				return
			default:
			}
			conn, err := net.DialTimeout("tcp", peer.HostPort(host, port), time.Second)
			if err != nil {
				time.Sleep(5 * time.Millisecond)
				continue
			}
			go io.Copy(io.Discard, conn)
			s := uint16(5)
			for k := 0; k < 20; k++ {
				m := []ref.Msg{ref.Ctrl(ref.SelectReq, s, r.Uint32()), ref.Ctrl(ref.DeselectReq, s, r.Uint32()), ref.Ctrl(ref.LinktestReq, 0xFFFF, r.Uint32()),
					ref.DataMsg(s, 1, 3, true, r.Uint32(), ref.Lst()), ref.DataMsg(s, 33, 3, true, r.Uint32(), ref.Lst()), ref.Ctrl(ref.SelectReq, s, r.Uint32())}[r.Intn(6)]
				if k == 0 {
					m = ref.Ctrl(ref.SelectReq, s, r.Uint32())
				}
				if _, err := conn.Write(m.Bytes()); err != nil {
					break
				}
				time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
			}
			conn.Close()
		}
	}()
	storm(c, label, "adopt", 5, p32Time(c)/2, protoOps("", p))
	close(stop)
	<-done
}

// p32Gem is a library host and a library equipment and everything their applications can do.
func p32Gem(c *mon.Ctx, label string, i int) {
	s := newGemPair(c, label, raceTimers)
	if s == nil {
		return
	}
	defer s.close()
	E, H := s.E, s.H
	ids := []any{1, 2, "A"}
	id := func(r *rand.Rand) any { return ids[r.Intn(len(ids))] }
	num := func(r *rand.Rand) ast.ItemNode { return ast.NewUintNode(4, r.Intn(10)) }
	var svs []*gem.StatusVariable
	var dvs []*gem.DataVariable
	var ecs []*gem.EquipmentConstant
	for k, x := range ids {
		sv, err := gem.NewStatusVariable(x, "sv", "u", gem.WithStatusValue(ast.NewUintNode(4, k)))
		must(err)
		must(E.RegisterStatusVariable(sv))
		ec, err := gem.NewEquipmentConstant(x, "ec", ast.NewUintNode(4, 5), gem.WithEquipmentConstantMin(ast.NewUintNode(4, 0)), gem.WithEquipmentConstantMax(ast.NewUintNode(4, 10)))
		must(err)
		must(E.RegisterEquipmentConstant(ec))
		dv, err := gem.NewDataVariable(fmt.Sprintf("D%v", x), "dv", gem.WithDataValue(ast.NewUintNode(4, 1)))
		must(err)
		must(E.RegisterDataVariable(dv))
		ce, err := gem.NewCollectionEvent(x, "ce")
		must(err)
		must(E.RegisterCollectionEvent(ce))
		E.RegisterAlarm(gem.Alarm{ID: k + 1, Text: "alarm", Enabled: true})
		svs, dvs, ecs = append(svs, sv), append(dvs, dv), append(ecs, ec)
	}
	cb := func(d map[string]interface{}) { _ = len(d) }
	cmd := func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		return gem.RemoteCommandResult{HCACK: gem.HCACKAcknowledge}, nil
	}
	E.SetRemoteCommandHandler(cmd)
	if !s.comm() {
		return
	}
	evs := func(g *gem.GemHandler) []*common.Event {
		e := g.Events()
		return []*common.Event{e.HandlerCommunicating, e.AlarmReceived, e.AlarmAckReceived, e.RemoteCommandReceived, e.EventReportReceived, e.ControlStateChanged, e.S9ErrorReceived}
	}
	ops := append(protoOps("host ", s.HP)[:3:3], protoOps("equipment ", s.EP)...)
	both := func(pre string, g *gem.GemHandler) {
		ops = append(ops,
			rop{pre + "state", 4, func(r *rand.Rand) { g.State(); g.ControlState(); g.ControlStateMachine().OnlineMode() }},
			rop{pre + "WaitForCommunicating", 1, func(r *rand.Rand) { g.WaitForCommunicating(time.Duration(r.Intn(20)) * time.Millisecond) }},
			rop{pre + "event callbacks", 2, func(r *rand.Rand) {
				e := evs(g)[r.Intn(7)]
				f := func(d map[string]interface{}) { _ = len(d) }
				if r.Intn(3) == 0 {
					f = cb
				}
				e.AddCallback(f)
				e.Len()
				e.RemoveCallback(f)
			}},
			rop{pre + "RegisterStreamFunctionHandler", 1, func(r *rand.Rand) {
				f := gem.StreamFunctionHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) { return nil, nil })
				if r.Intn(2) == 0 {
					f = nil
				}
				g.RegisterStreamFunctionHandler(21, 1+2*r.Intn(2), f)
			}},
			rop{pre + "process programs", 3, func(r *rand.Rand) {
				switch r.Intn(5) {
				case 0:
					g.RegisterProcessProgram(id(r), fmt.Sprint("body", r.Intn(9)))
				case 1, 2:
					g.ListProcessPrograms()
				case 3:
					g.SetProcessProgramUploadHandler(nil)
					g.SetProcessProgramUploadHandler(func(any, string) int { return 0 })
					g.SetProcessProgramUploadHandler(nil)
				case 4:
					g.SetProcessProgramRequestHandler(func(any) (string, int) { return "x", 0 })
					g.SetProcessProgramRequestHandler(nil)
				}
			}},
			rop{pre + "UploadProcessProgram", 1, func(r *rand.Rand) { g.UploadProcessProgram(id(r), "body") }},
			rop{pre + "RequestProcessProgram", 1, func(r *rand.Rand) { g.RequestProcessProgram(id(r)) }},
			rop{pre + "clock", 2, func(r *rand.Rand) {
				switch r.Intn(4) {
				case 0:
					g.SetTimeProvider(func() time.Time { return time.Unix(1, 0) })
				case 1:
					g.SetTimeProvider(nil)
				case 2:
					g.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, nil })
				case 3:
					g.GetEquipmentTime()
				}
			}},
			rop{pre + "SetRemoteCommandHandler", 1, func(r *rand.Rand) { g.SetRemoteCommandHandler(cmd) }},
			rop{pre + "Enable", 1, func(r *rand.Rand) { g.Enable() }},
			rop{pre + "Protocol", 1, func(r *rand.Rand) { g.Protocol().CurrentState() }})
		if i%2 == 1 {
			ops = append(ops, rop{pre + "Disable", 1, func(r *rand.Rand) {
				if r.Intn(14) == 0 {
					g.Disable()
					g.Enable()
				}
			}})
		}
	}
	both("host ", H)
	both("equipment ", E)
	ops = append(ops,
		rop{"RequestStatusVariables", 3, func(r *rand.Rand) { H.RequestStatusVariables(id(r), id(r)) }},
		rop{"RequestStatusVariableInfo", 2, func(r *rand.Rand) { H.RequestStatusVariableInfo() }},
		rop{"RequestEquipmentConstants", 3, func(r *rand.Rand) { H.RequestEquipmentConstants(id(r)) }},
		rop{"RequestEquipmentConstantInfo", 2, func(r *rand.Rand) { H.RequestEquipmentConstantInfo() }},
		rop{"SendEquipmentConstantValues", 3, func(r *rand.Rand) {
			H.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: id(r), Value: num(r)}, {ID: id(r), Value: num(r)}})
		}},
		rop{"DefineReports", 3, func(r *rand.Rand) {
			if r.Intn(6) == 0 {
				H.DefineReports()
			} else {
				H.DefineReports(gem.ReportDefinitionRequest{ReportID: id(r), VIDs: []any{id(r), "DA"}})
			}
		}},
		rop{"LinkEventReports", 3, func(r *rand.Rand) {
			H.LinkEventReports(gem.EventReportLinkRequest{CEID: id(r), ReportIDs: []any{id(r)}})
		}},
		rop{"EnableEventReports", 3, func(r *rand.Rand) { H.EnableEventReports(r.Intn(4) > 0, id(r)) }},
		rop{"RequestCollectionEventReport", 3, func(r *rand.Rand) { H.RequestCollectionEventReport(id(r)) }},
		rop{"TriggerCollectionEvent", 5, func(r *rand.Rand) { E.TriggerCollectionEvent(id(r), id(r)) }},
		rop{"SendRemoteCommand", 2, func(r *rand.Rand) {
			H.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}})
		}},
		rop{"RequestDateTime", 2, func(r *rand.Rand) { H.RequestDateTime() }},
		rop{"SetDateTime", 2, func(r *rand.Rand) { H.SetDateTime("2026010203040500") }},
		rop{"alarm", 4, func(r *rand.Rand) {
			a := 1 + r.Intn(3)
			switch r.Intn(3) {
			case 0:
				E.RegisterAlarm(gem.Alarm{ID: a, Text: fmt.Sprint("alarm", r.Intn(9)), Enabled: true})
			case 1:
				E.RaiseAlarm(a, r.Intn(2) == 0)
			case 2:
				E.ClearAlarm(a)
			}
		}},
		rop{"enable alarm", 2, func(r *rand.Rand) {
			if r.Intn(3) == 0 {
				H.DisableAlarm(1 + r.Intn(3))
			} else {
				H.EnableAlarm(1 + r.Intn(3))
			}
		}},
		rop{"list alarms", 2, func(r *rand.Rand) {
			H.Protocol().SendAndWait(dataNode(5, 5+2*r.Intn(2), 1, ref.Lst()))
		}},
		rop{"variables", 5, func(r *rand.Rand) {
			k := r.Intn(3)
			switch r.Intn(9) {
			case 0:
				svs[k].SetValue(num(r))
			case 1:
				svs[k].SetValueProvider(func() (ast.ItemNode, error) { return ast.NewUintNode(4, 3), nil })
			case 2:
				svs[k].SetValueProvider(nil)
			case 3:
				svs[k].Value()
			case 4:
				dvs[k].SetValue(num(r))
			case 5:
				dvs[k].SetValueProvider(func() (ast.ItemNode, error) { return ast.NewUintNode(4, 3), nil })
				dvs[k].SetValueProvider(nil)
			case 6:
				dvs[k].Value()
			case 7:
				ecs[k].Value()
			case 8:
				ecs[k].ApplyValue(num(r))
			}
		}},
		rop{"register variables", 2, func(r *rand.Rand) {
			x := any(fmt.Sprint("N", r.Intn(30)))
			if r.Intn(2) == 0 {
				x = id(r)
			}
			switch r.Intn(4) {
			case 0:
				sv, _ := gem.NewStatusVariable(x, "sv", "u", gem.WithStatusValue(num(r)))
				E.RegisterStatusVariable(sv)
			case 1:
				ec, _ := gem.NewEquipmentConstant(x, "ec", num(r))
				E.RegisterEquipmentConstant(ec)
			case 2:
				dv, _ := gem.NewDataVariable(x, "dv", gem.WithDataValue(num(r)))
				E.RegisterDataVariable(dv)
			case 3:
				ce, _ := gem.NewCollectionEvent(x, "ce")
				E.RegisterCollectionEvent(ce)
			}
		}},
		rop{"control", 3, func(r *rand.Rand) {
			switch r.Intn(4) {
			case 0:
				E.SwitchControlOffline()
			case 1:
				E.SwitchControlOnline()
			case 2:
				E.SwitchControlOnlineLocal()
			case 3:
				E.SwitchControlOnlineRemote()
			}
		}},
		rop{"remote control", 2, func(r *rand.Rand) {
			H.Protocol().SendAndWait(dataNode(1, 15+2*r.Intn(2), 1, ref.Lst()))
		}})
	storm(c, label, "gem"+fmt.Sprint(i%2), 14, p32Time(c)*3/2, ops)
}

// p32Link is a server, its sessions, and channels of them.
func p32Link(c *mon.Ctx, label string, i int) {
	type msg struct{ N int }
	js := codec.Json()
	js.Register(msg{})
	proto := []link.Protocol{js, codec.FixLen(js, 4, binary.LittleEndian, 1<<16, 1<<16), codec.Bufio(codec.FixLen(js, 2, binary.BigEndian, 1<<15, 1<<15), 512, 512)}[i%3]
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	ch := link.NewChannel()
	srv := link.NewServer(ln, proto, []int{0, 8, 64}[i%3], link.HandlerFunc(func(ss *link.Session) {
		ch.Put(ss.ID()%8, ss)
		for {
			m, err := ss.Receive()
			if err != nil {
				return
			}
			ss.Send(m)
		}
	}))
	done := make(chan struct{})
	go func() { srv.Serve(); close(done) }()
	var slots [4]atomic.Pointer[link.Session]
	dial := func() *link.Session {
		s, err := link.DialTimeout("tcp", ln.Addr().String(), time.Second, proto, []int{0, 8}[i%2])
		if err != nil {
			return nil
		}
		go func() {
			for {
				if _, err := s.Receive(); err != nil {
					return
				}
			}
		}()
		return s
	}
	for k := range slots {
		slots[k].Store(dial())
	}
	get := func(r *rand.Rand) *link.Session { return slots[r.Intn(4)].Load() }
	ops := []rop{
		{"Send", 8, func(r *rand.Rand) {
			if s := get(r); s != nil {
				s.Send(&msg{r.Intn(100)})
			}
		}},
		{"Close", 1, func(r *rand.Rand) {
			k := r.Intn(4)
			if s := slots[k].Load(); s != nil {
				s.Close()
				slots[k].Store(dial())
			}
		}},
		{"close callbacks", 3, func(r *rand.Rand) {
			if s := get(r); s != nil {
				s.AddCloseCallback("h", r.Intn(4), func() {})
				s.RemoveCloseCallback("h", r.Intn(4))
			}
		}},
		{"session state", 3, func(r *rand.Rand) {
			if s := get(r); s != nil {
				s.IsClosed()
				s.ID()
				s.Codec()
			}
		}},
		{"GetSession", 3, func(r *rand.Rand) { srv.GetSession(uint64(r.Intn(40))) }},
		{"Channel.Get", 3, func(r *rand.Rand) {
			if s := ch.Get(uint64(r.Intn(8))); s != nil {
				s.Send(&msg{1})
			}
		}},
		{"Channel.Fetch", 2, func(r *rand.Rand) { ch.Fetch(func(s *link.Session) { s.IsClosed() }); ch.Len() }},
		{"Channel.Remove", 1, func(r *rand.Rand) { ch.Remove(uint64(r.Intn(8))) }},
		{"Channel.Put", 2, func(r *rand.Rand) {
			if s := get(r); s != nil {
				ch.Put(uint64(r.Intn(8)), s)
			}
		}},
		{"Channel.FetchAndRemove", 1, func(r *rand.Rand) {
			if r.Intn(10) == 0 {
				ch.FetchAndRemove(func(s *link.Session) {})
			}
		}},
		{"broadcast", 1, func(r *rand.Rand) { ch.Fetch(func(s *link.Session) { s.Send(&msg{2}) }) }},
	}
	storm(c, label, "link"+fmt.Sprint(i%3), 8, p32Time(c)/2, ops)
	if !mon.Within(mon.Hang, func() {
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch k {
				case 0:
					srv.Stop()
				case 1:
					ch.Close()
				case 2:
					for k := range slots {
						if s := slots[k].Load(); s != nil {
							s.Close()
						}
					}
				}
			}()
		}
		wg.Wait()
		<-done
	}) {
		c.Inconclusive("%s: the server does not stop", label)
	}
}

// p32Values is what goroutines share without a connection: items, messages, parsers, events, queues, machines.
func p32Values(c *mon.Ctx, label string, i int) {
	r0 := c.Rng(label)
	var items []ref.Item
	for k := 0; k < 6; k++ {
		items = append(items, ref.Lst(ref.Gen(r0, 3, 6), ref.Asc("ab"), ref.Uint(ref.U2, 7), ref.Bool(true), ref.Float(ref.F8, 1.5)))
	}
	var msgs []*ast.DataMessage
	var raws [][]byte
	var txts []string
	for _, it := range items {
		if it.NonFinite() || it.NonASCII() {
			it = ref.Lst(ref.Asc("ab"), ref.Uint(ref.U2, 7), ref.Bool(true), ref.Float(ref.F8, 1.5))
		}
		m := dataNode(1, 3, 1, it)
		msgs = append(msgs, m)
		raws = append(raws, ref.DataMsg(1, 1, 3, true, 7, it).Bytes())
		txts = append(txts, m.String())
	}
	vs, _, _ := sml.Parse("S1F1 W H->E <L <A[0..20] name> <U4 num> <B b> <F4 f> <BOOLEAN t> <L <I2 x> ... > >.")
	q := utils.NewDeque()
	ev := &common.Event{}
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: gem.ControlStateEquipmentOffline})
	cs := hsms.NewConnectionStateMachine(nil)
	cm := gem.NewClockManager()
	lg := common.NewStdLogger(nullWriter{}, "x")
	cb := func(map[string]interface{}) {}
	pick := func(r *rand.Rand) int { return r.Intn(len(msgs)) }
	ops := []rop{
		{"message to bytes", 3, func(r *rand.Rand) {
			m := msgs[pick(r)]
			m.SetSessionIDAndSystemBytes(r.Intn(100), []byte{1, 2, 3, 4}).SetWaitBit(true).ToBytes()
		}},
		{"message to text", 2, func(r *rand.Rand) { _ = msgs[pick(r)].String() }},
		{"message fields", 3, func(r *rand.Rand) {
			m := msgs[pick(r)]
			m.Get(0)
			m.GetAscii(1)
			m.GetInt(2)
			m.GetBoolean(3)
			m.GetFloat(4)
			m.Variables()
			m.SystemBytes()
			m.SessionID()
			m.Header()
		}},
		{"fill variables", 3, func(r *rand.Rand) {
			if len(vs) > 0 {
				v := map[string]interface{}{"name": "x", "num": r.Intn(9), "b": 1, "f": 1.5, "t": true, "x": 3}
				if r.Intn(2) == 0 {
					v["..."] = 2
				}
				mon.Recover(func() { _ = vs[0].FillVariables(v).String(); vs[0].Variables(); _ = vs[0].String() })
			}
		}},
		{"parse bytes", 3, func(r *rand.Rand) { phsms.Parse(raws[pick(r)]) }},
		{"parse text", 2, func(r *rand.Rand) { sml.Parse(txts[pick(r)]) }},
		{"queue put", 2, func(r *rand.Rand) { q.Put(r.Intn(9)) }},
		{"queue get", 2, func(r *rand.Rand) { q.Put(1); q.Get(1) }},
		{"event", 3, func(r *rand.Rand) {
			switch r.Intn(4) {
			case 0:
				ev.AddCallback(cb)
			case 1:
				ev.RemoveCallback(cb)
			case 2:
				ev.Fire(map[string]interface{}{"x": 1})
			case 3:
				ev.Len()
			}
		}},
		{"control machine", 3, func(r *rand.Rand) {
			[]func() error{sm.SwitchOnline, sm.SwitchOffline, sm.SwitchOnlineLocal, sm.SwitchOnlineRemote, sm.AttemptOnlineFailEquipmentOffline,
				sm.AttemptOnlineFailHostOffline, sm.AttemptOnlineSuccess, sm.RemoteOffline, sm.RemoteOnline}[r.Intn(9)]()
			sm.State()
			sm.OnlineMode()
			sm.IsOnlineState()
			sm.Start()
		}},
		{"connection machine", 3, func(r *rand.Rand) {
			[]func() error{cs.Connect, cs.Disconnect, cs.Select, cs.Deselect, cs.TimeoutT7}[r.Intn(5)]()
			cs.CurrentState()
		}},
		{"clock", 3, func(r *rand.Rand) {
			switch r.Intn(5) {
			case 0:
				cm.SetTimeProvider(func() time.Time { return time.Unix(5, 0) })
			case 1:
				cm.SetTimeProvider(nil)
			case 2:
				cm.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, nil })
			case 3:
				cm.HandleTimeSet(time.Unix(7, 0))
			case 4:
				cm.GetFormattedTime()
				cm.GetTime()
			}
		}},
		{"log", 1, func(r *rand.Rand) { lg.Info("x", "y", 1); lg.Error("x") }},
		{"new system bytes", 1, func(r *rand.Rand) {
			hsms.NewS9ErrorInfo(3, "x", msgs[pick(r)], []byte{1, 2, 3, 4})
			_ = strings.ToUpper("x")
		}},
	}
	storm(c, label, "values", 8, p32Time(c)/2, ops)
}
