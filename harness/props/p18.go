package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P18", Race: true, Run: p18,
		Rule: "one case is one hostile message (or one hostile byte stream, or one library request answered in a hostile way) given to a live endpoint; distinct by endpoint kind, stream, function and form of the item, or by the form of the attack",
		Assume: []string{"a crash is a panic whose stack has the library on it; application callbacks of the harness do not panic",
			"a connection the peer stopped using is closed by the peer before the next one is judged (T8 is long)",
			"what the endpoint answers to hostile but decodable messages is judged by other properties"}})
}

// hostile bodies: templates, and mutations of them

var hostileIDs = []ref.Item{
	ref.Uint(ref.U4, 1), ref.Uint(ref.U1, 2), ref.Uint(ref.U8, 3), ref.Int(ref.I2, 4), ref.Asc("A"), ref.Asc("B"), ref.Asc(""),
	ref.Uint(ref.U4, 99), ref.Int(ref.I4, -1), ref.Uint(ref.U8, 1<<64-1), ref.Uint(ref.U4), ref.Uint(ref.U4, 1, 2), ref.Lst(), ref.Bin(1), ref.Bool(true), ref.Float(ref.F8, 1),
}

func hid(r *rand.Rand) ref.Item {
	if r.Intn(3) > 0 {
		return hostileIDs[r.Intn(6)]
	}
	return hostileIDs[r.Intn(len(hostileIDs))]
}

func hlist(r *rand.Rand, max int, f func() ref.Item) ref.Item {
	it := ref.Lst()
	for i := r.Intn(max + 1); i > 0; i-- {
		it.List = append(it.List, f())
	}
	return it
}

func hids(r *rand.Rand) ref.Item { return hlist(r, 4, func() ref.Item { return hid(r) }) }

var hostileTemplates = map[[2]int]func(r *rand.Rand) ref.Item{
	{1, 1}:  func(r *rand.Rand) ref.Item { return ref.Item{} },
	{1, 2}:  func(r *rand.Rand) ref.Item { return ref.Lst(ref.Asc("M"), ref.Asc("1")) },
	{1, 3}:  hids,
	{1, 4}:  func(r *rand.Rand) ref.Item { return hlist(r, 4, func() ref.Item { return ref.Gen(r, 2, 4) }) },
	{1, 11}: hids,
	{1, 12}: func(r *rand.Rand) ref.Item {
		return hlist(r, 4, func() ref.Item { return ref.Lst(hid(r), ref.Asc("name"), ref.Asc("mm")) })
	},
	{1, 13}: func(r *rand.Rand) ref.Item { return ref.Lst(ref.Asc("M"), ref.Asc("1")) },
	{1, 14}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Bin(byte(r.Intn(2))), ref.Lst(ref.Asc("M"), ref.Asc("1")))
	},
	{1, 15}: func(r *rand.Rand) ref.Item { return ref.Item{} },
	{1, 17}: func(r *rand.Rand) ref.Item { return ref.Item{} },
	{2, 13}: hids,
	{2, 14}: func(r *rand.Rand) ref.Item { return hlist(r, 4, func() ref.Item { return ref.Gen(r, 2, 4) }) },
	{2, 15}: func(r *rand.Rand) ref.Item {
		return hlist(r, 4, func() ref.Item { return ref.Lst(hid(r), ref.GenScalar(r, 3)) })
	},
	{2, 16}: hack,
	{2, 17}: func(r *rand.Rand) ref.Item { return ref.Item{} },
	{2, 18}: htime,
	{2, 29}: hids,
	{2, 30}: func(r *rand.Rand) ref.Item {
		return hlist(r, 4, func() ref.Item {
			return ref.Lst(hid(r), ref.Asc("n"), ref.Uint(ref.U4, 0), ref.Uint(ref.U4, 9), ref.Uint(ref.U4, 1), ref.Asc("u"))
		})
	},
	{2, 31}: htime,
	{2, 32}: hack,
	{2, 33}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Uint(ref.U4, 7), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), hids(r)) }))
	},
	{2, 34}: hack,
	{2, 35}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Uint(ref.U4, 7), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), hids(r)) }))
	},
	{2, 36}: hack,
	{2, 37}: func(r *rand.Rand) ref.Item { return ref.Lst(ref.Bool(r.Intn(2) == 0), hids(r)) },
	{2, 38}: hack,
	{2, 41}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Asc("GO"), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), ref.Gen(r, 2, 3)) }))
	},
	{2, 42}: func(r *rand.Rand) ref.Item {
		return ref.Lst(hack(r), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), hack(r)) }))
	},
	{5, 1}: func(r *rand.Rand) ref.Item { return ref.Lst(hack(r), hid(r), ref.Asc("hot")) },
	{5, 2}: hack,
	{5, 3}: func(r *rand.Rand) ref.Item { return ref.Lst(ref.Bin(byte(r.Intn(256))), hids(r)) },
	{5, 4}: hack,
	{5, 5}: hids,
	{5, 6}: func(r *rand.Rand) ref.Item {
		return hlist(r, 3, func() ref.Item { return ref.Lst(hack(r), hid(r), ref.Asc("hot")) })
	},
	{5, 7}: func(r *rand.Rand) ref.Item { return ref.Item{} },
	{6, 11}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Uint(ref.U4, 1), hid(r), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), hlist(r, 3, func() ref.Item { return ref.Gen(r, 2, 3) })) }))
	},
	{6, 12}: hack,
	{6, 15}: hid,
	{6, 16}: func(r *rand.Rand) ref.Item {
		return ref.Lst(ref.Uint(ref.U4, 1), hid(r), hlist(r, 3, func() ref.Item { return ref.Lst(hid(r), hlist(r, 3, func() ref.Item { return ref.Gen(r, 2, 3) })) }))
	},
	{7, 3}: func(r *rand.Rand) ref.Item { return ref.Lst(hid(r), ref.Asc("body")) },
	{7, 4}: hack,
	{7, 5}: hid,
	{7, 6}: func(r *rand.Rand) ref.Item { return ref.Lst(hid(r), ref.Asc("body")) },
	{9, 1}: hhead, {9, 3}: hhead, {9, 5}: hhead, {9, 7}: hhead, {9, 9}: hhead, {9, 11}: hhead,
}

var hostileSF = func() (l [][2]int) {
	for s := 1; s < 10; s++ {
		for f := 0; f < 64; f++ {
			if _, ok := hostileTemplates[[2]int{s, f}]; ok {
				l = append(l, [2]int{s, f})
			}
		}
	}
	return l
}()

func hack(r *rand.Rand) ref.Item { return ref.Bin(byte(r.Intn(4)) * byte(1+r.Intn(2)*60)) }
func htime(r *rand.Rand) ref.Item {
	return ref.Asc([]string{"2026010203040500", "20260102030405", "260102030405", "", "9999999999999999", "2026-01-02T03:04", "20260102030405\x00\x01"}[r.Intn(7)])
}
func hhead(r *rand.Rand) ref.Item {
	b := make([]byte, []int{10, 10, 10, 0, 1, 9, 11, 300}[r.Intn(8)])
	r.Read(b)
	return ref.Bin(b...)
}

func itemNodes(it *ref.Item, out []*ref.Item) []*ref.Item {
	out = append(out, it)
	for i := range it.List {
		out = itemNodes(&it.List[i], out)
	}
	return out
}

func cloneItem(it ref.Item) ref.Item {
	c := it
	c.Words = append([]uint64(nil), it.Words...)
	c.List = nil
	for _, e := range it.List {
		c.List = append(c.List, cloneItem(e))
	}
	return c
}

// mutateItem changes one node.
func mutateItem(r *rand.Rand, it ref.Item) (ref.Item, string) {
	it = cloneItem(it)
	nodes := itemNodes(&it, nil)
	n := nodes[r.Intn(len(nodes))]
	switch r.Intn(13) {
	case 0:
		*n = ref.Item{K: ref.L}
		return it, "empty list"
	case 1:
		*n = ref.GenScalar(r, 0)
		return it, "no values"
	case 2:
		*n = ref.GenScalar(r, 1)
		return it, "other scalar"
	case 3:
		*n = ref.GenScalar(r, 2+r.Intn(4))
		return it, "several values"
	case 4:
		*n = ref.Gen(r, 4, 6)
		return it, "other item"
	case 5:
		*n = ref.Lst(*n)
		return it, "wrapped"
	case 6:
		if n.K == ref.L && len(n.List) > 0 {
			i := r.Intn(len(n.List))
			n.List = append(n.List[:i:i], n.List[i+1:]...)
			return it, "element dropped"
		}
		*n = ref.Item{K: ref.L}
		return it, "empty list"
	case 7:
		if n.K == ref.L && len(n.List) > 0 {
			i := r.Intn(len(n.List))
			n.List = append(n.List, cloneItem(n.List[i]))
			return it, "element doubled"
		}
		n2 := *n
		n2.Words = append(append([]uint64(nil), n.Words...), n.Words...)
		*n = n2
		return it, "values doubled"
	case 8:
		if n.K == ref.L {
			n.List = append(n.List, ref.Gen(r, 2, 3))
			return it, "element added"
		}
		*n = ref.Uint(ref.U8, 1<<64-1)
		return it, "huge number"
	case 9:
		*n = ref.Int(ref.I8, -1<<63)
		return it, "least number"
	case 10:
		b := make([]byte, 1+r.Intn(20))
		r.Read(b)
		*n = ref.Item{K: ref.A}
		if r.Intn(12) > 0 { // the others cannot be decoded
			for _, x := range b {
				n.Words = append(n.Words, uint64(x&0x7F))
			}
			return it, "other text"
		}
		for _, x := range b {
			n.Words = append(n.Words, uint64(x))
		}
		return it, "text of any bytes"
	case 11:
		k := ref.F4
		if r.Intn(12) > 0 { // the others cannot be decoded
			*n = ref.Item{K: ref.F8, Words: []uint64{[]uint64{1 << 63, 1, 0x7FEFFFFFFFFFFFFF, 0x43F0000000000000, 0xBFE0000000000000}[r.Intn(5)]}}
			return it, "odd float"
		}
		w := []uint64{0x7FC00000, 0x7F800000, 0xFF800000, 1}
		if r.Intn(2) == 0 {
			k = ref.F8
			w = []uint64{0x7FF8000000000001, 0x7FF0000000000000, 0xFFF0000000000000, 1}
		}
		*n = ref.Item{K: k, Words: []uint64{w[r.Intn(4)]}}
		return it, "no number"
	}
	big := ref.Lst()
	for i := 0; i < 300; i++ {
		big.List = append(big.List, *n)
	}
	if len(nodes) > 40 {
		big.List = big.List[:3]
	}
	*n = big
	return it, "300 copies"
}

func hostileBody(r *rand.Rand, sf [2]int) (ref.Item, string) {
	it := hostileTemplates[sf](r)
	switch r.Intn(10) {
	case 0:
		return it, "template"
	case 1:
		return ref.Item{}, "no item"
	case 2:
		return ref.Gen(r, 3, 6), "any item"
	case 3:
		d := ref.Lst()
		for i := 0; i < 40; i++ {
			d = ref.Lst(d)
		}
		return d, "deep"
	}
	if it.K == ref.None {
		return ref.Gen(r, 2, 4), "any item"
	}
	how := ""
	for i := 1 + r.Intn(2); i > 0; i-- {
		it, how = mutateItem(r, it)
		if it.Count() > 3000 {
			break
		}
	}
	return it, how
}

// p18Env is the process the attacks happen in, with two endpoints that must not notice them.
type p18Env struct {
	c     *mon.Ctx
	pair  *gemPair
	stop  chan struct{}
	wg    sync.WaitGroup
	asked atomic.Int64
}

func p18(c *mon.Ctx) {
	v := &p18Env{c: c, stop: make(chan struct{})}
	v.pair = newGemPair(c, "bystanders", nil)
	if v.pair == nil {
		return
	}
	if !v.pair.comm() {
		v.pair.close()
		return
	}
	v.wg.Add(1)
	go v.bystanders()

	type job struct {
		label string
		f     func(*p18Run)
		kind  string
	}
	var jobs []job
	add := func(name string, n int, kinds []string, f func(*p18Run)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{fmt.Sprintf("%s-%d", name, i), f, kinds[i%len(kinds)]})
		}
	}
	eq := []string{"equipment passive", "host passive", "equipment active", "host active"}
	add("items", c.N(12, 120), eq, (*p18Run).items)
	add("bytes", c.N(12, 80), []string{"equipment passive", "hsms passive", "host passive", "equipment active", "hsms active", "host active"}, (*p18Run).bytes)
	add("replies", c.N(12, 80), []string{"host passive", "equipment passive", "host active"}, (*p18Run).replies)
	add("flood", c.N(4, 16), eq, (*p18Run).flood)
	mon.Parallel(12, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(j.label)()
		s := p18New(v, j.label, j.kind)
		if s == nil {
			return
		}
		j.f(s)
		if s.served("in the end") && !s.isBad() {
			c.Count("endpoints that survived", 1)
		}
		if !s.isBad() && !mon.Within(mon.Hang, s.disable) {
			s.fail("disable-hangs", "Disable does not return within %v\n%s", mon.Hang, head(mon.LibStacks(), 2500))
		}
		s.e.close()
	})
	mon.Parallel(4, c.N(8, 60), func(i int) {
		label := fmt.Sprintf("codec-%d", i)
		if !c.Skip(label) && c.Violations() <= 6 {
			defer c.Begin(label)()
			p18Codec(c, label, i)
		}
	})
	close(v.stop)
	v.wg.Wait()
	v.pair.close()
	c.Count("requests between the bystanders", int(v.asked.Load()))
}

func (v *p18Env) bystanders() {
	defer v.wg.Done()
	for {
		select {
		case <-v.stop:
			return
		case <-time.After(2 * time.Millisecond):
		}
		if _, err := v.pair.H.RequestDateTime(); err != nil {
			v.pair.fail("bystander", "a request between two endpoints nobody attacked failed: %v (host %v, equipment %v)", err, v.pair.H.State(), v.pair.E.State())
			return
		}
		v.asked.Add(1)
	}
}

type p18Run struct {
	*gemRig
	v    *p18Env
	kind string
	host bool
	hsms bool
}

func (s *p18Run) disable() {
	if s.hsms {
		s.e.P.Disable()
	} else {
		s.G.Disable()
	}
}

func p18New(v *p18Env, label, kind string) *p18Run {
	cfg := func(t *hsms.SecsTimeout) {
		if strings.HasPrefix(label, "replies") {
			t.SetT3ReplyTimeout(1)
		}
	}
	rig := newGemRig(v.c, label, kind, cfg)
	if rig == nil {
		return nil
	}
	s := &p18Run{gemRig: rig, v: v, kind: kind, host: strings.HasPrefix(kind, "host"), hsms: strings.HasPrefix(kind, "hsms")}
	s.e.P.OnS9Error = chainS9(s.e.P.OnS9Error)
	if s.hsms {
		s.e.P.RegisterDefaultHandler(func(m *ast.DataMessage) (*ast.DataMessage, error) {
			_ = m.String()
			if s.r == nil {
				return nil, nil
			}
			return dataNode(m.StreamCode(), m.FunctionCode()+1, 0, ref.Lst()), nil
		})
		s.e.P.Enable()
		return s
	}
	s.populate()
	s.G.Enable()
	return s
}

func chainS9(old func(*hsms.S9ErrorInfo)) func(*hsms.S9ErrorInfo) {
	return func(i *hsms.S9ErrorInfo) {
		_ = fmt.Sprintf("%v", i)
		if old != nil {
			old(i)
		}
	}
}

// populate gives the handler something of everything, with application code that looks at what it is given.
func (s *p18Run) populate() {
	look := func(d map[string]interface{}) { _ = len(fmt.Sprintf("%T", d)) }
	ev := s.G.Events()
	for _, e := range []interface {
		AddCallback(func(map[string]interface{}))
	}{ev.HandlerCommunicating, ev.AlarmReceived, ev.AlarmAckReceived, ev.RemoteCommandReceived, ev.EventReportReceived, ev.ControlStateChanged, ev.S9ErrorReceived} {
		e.AddCallback(look)
	}
	if s.host {
		return
	}
	ids := []any{1, 2, 3, "A", "B"}
	for i, id := range ids {
		sv, err := gem.NewStatusVariable(id, "sv", "mm", gem.WithStatusValue(ref.ToAST(ref.Uint(ref.U4, uint64(100+i)))))
		must(err)
		must(s.G.RegisterStatusVariable(sv))
		ec, err := gem.NewEquipmentConstant(id, "ec", ref.ToAST(ref.Uint(ref.U4, 5)),
			gem.WithEquipmentConstantMin(ref.ToAST(ref.Uint(ref.U4, 0))), gem.WithEquipmentConstantMax(ref.ToAST(ref.Uint(ref.U4, 10))))
		must(err)
		must(s.G.RegisterEquipmentConstant(ec))
		dv, err := gem.NewDataVariable(fmt.Sprintf("D%v", id), "dv", gem.WithDataValue(ref.ToAST(ref.Asc("x"))))
		must(err)
		must(s.G.RegisterDataVariable(dv))
		ce, err := gem.NewCollectionEvent(id, "ce")
		must(err)
		must(s.G.RegisterCollectionEvent(ce))
		must(s.G.RegisterProcessProgram(id, "program"))
	}
	// what the probe uses has names the attacks do not
	sv, err := gem.NewStatusVariable("probe-sv", "sv", "mm", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return ref.ToAST(ref.Uint(ref.U2, 777)), nil }))
	must(err)
	must(s.G.RegisterStatusVariable(sv))
	ce, err := gem.NewCollectionEvent("probe-ce", "ce")
	must(err)
	must(s.G.RegisterCollectionEvent(ce))
	for i := 1; i < 5; i++ {
		s.G.RegisterAlarm(gem.Alarm{ID: i, Text: "alarm", Enabled: true})
	}
	s.G.SetRemoteCommandHandler(func(q gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
		var acks []gem.RemoteCommandParameterAck
		for _, p := range q.Parameters {
			if p.Value == nil {
				panic("harness: a parameter without a value")
			}
			_ = p.Value.ToBytes()
		}
		return gem.RemoteCommandResult{HCACK: gem.HCACKAcknowledge, ParameterAcks: acks}, nil
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// relink gets a connection that is served: selected, and communicating for GEM.
func (s *p18Run) relink(when string) bool {
	s.e.setHook(gemPeer)
	s.e.selStatus.Store(0)
	end := time.Now().Add(2 * mon.Hang)
	err := errors.New("no connection")
	for tries := 0; ; tries++ {
		// an active endpoint may have connected before select.reqs were answered again
		if p, e := s.e.connect(mon.Hang); e != nil {
			err = e
			break
		} else {
			s.p, err = p, nil
		}
		if !s.e.Active {
			err = s.p.Select(mon.Hang)
		}
		if err == nil && mon.Eventually(5*time.Second, func() bool { return s.e.selected() || s.p.Closed() }) && !s.p.Closed() {
			if s.hsms {
				return true
			}
			var m ref.Msg
			if m, err = s.p.Request(mon.Hang, 1, 13, ref.Lst()); err == nil {
				if m.Function() != 14 {
					err = fmt.Errorf("S1F13 answered by %s", m)
				} else if s.G.WaitForCommunicating(mon.Hang) {
					return true
				} else {
					err = fmt.Errorf("communication state %v", s.G.State())
				}
			}
			if !s.p.Closed() || tries > 20 {
				break
			}
		}
		if time.Now().After(end) {
			break
		}
		s.p.Close()
	}
	s.fail("not-served", "a well-behaved peer is not served %s: %v\n%s", when, err, head(mon.LibStacks(), 2500))
	return false
}

// served is the conformance probe on a new connection.
func (s *p18Run) served(when string) bool {
	if s.isBad() {
		return false
	}
	if s.p != nil {
		s.p.Close()
	}
	for try := 0; ; try++ {
		if !s.relink(when) {
			return false
		}
		if s.probe() {
			s.c.Count("conformance probes passed", 1)
			return true
		}
		// communication a passive end took up again before it noticed the last loss may end once more
		if s.isBad() || try > 3 {
			if !s.isBad() {
				s.fail("probe-lost", "the connection of a well-behaved peer is lost again and again %s\n%s", when, strings.Join(s.p.Log(10), "\n"))
			}
			return false
		}
	}
}

// probe is true when all went well, false without a verdict (isBad false) when the connection was lost.
func (s *p18Run) probe() bool {
	get := func(stream, function int, body ref.Item) (ref.Item, bool) {
		m, err := s.p.Request(mon.Hang, stream, function, body)
		if err != nil {
			if !s.p.Closed() {
				s.fail("probe-no-reply", "S%dF%d %s of a well-behaved peer: %v\n%s", stream, function, body, err, head(mon.LibStacks(), 2500))
			}
			return ref.Item{}, false
		}
		it, err := m.Item()
		if err != nil || m.Stream() != stream || m.Function() != function+1 {
			s.fail("probe-reply", "S%dF%d %s of a well-behaved peer is answered by %s", stream, function, body, m)
			return ref.Item{}, false
		}
		return it, true
	}
	expect := func(stream, function int, body ref.Item, ok func(ref.Item) bool) bool {
		it, good := get(stream, function, body)
		if good && !ok(it) {
			s.fail("probe-answer", "S%dF%d %s of a well-behaved peer is answered by %s", stream, function, body, it)
			return false
		}
		return good
	}
	any := func(ref.Item) bool { return true }
	zero := func(it ref.Item) bool { return ack1(it) == 0 }
	if !s.p.Linktest(mon.Hang) {
		if !s.p.Closed() {
			s.fail("probe-linktest", "linktest of a well-behaved peer is not answered")
		}
		return false
	}
	if s.hsms {
		return expect(1, 1, ref.Item{}, any)
	}
	if !expect(1, 1, ref.Item{}, func(it ref.Item) bool { return it.K == ref.L }) {
		return false
	}
	if s.host {
		if !expect(5, 1, ref.Lst(ref.Bin(0x81), ref.Uint(ref.U4, 5), ref.Asc("hot")), zero) ||
			!expect(6, 11, ref.Lst(ref.Uint(ref.U4, 1), ref.Uint(ref.U4, 5), ref.Lst(ref.Lst(ref.Uint(ref.U4, 5), ref.Lst(ref.Asc("x"))))), zero) {
			return false
		}
		var txt string
		var err error
		if !mon.Within(mon.Hang, func() { txt, err = s.G.RequestDateTime() }) {
			s.fail("probe-call", "RequestDateTime hangs")
			return false
		}
		if err != nil || txt != "2026010203040500" {
			if !s.p.Closed() && s.G.State() == gem.CommunicationStateCommunicating {
				s.fail("probe-call", "RequestDateTime to a well-behaved peer gives %q, %v", txt, err)
			}
			return false
		}
		return true
	}
	id := func(x string) ref.Item { return ref.Asc(x) }
	one := ref.Uint(ref.U4, 1)
	return expect(1, 3, ref.Lst(id("probe-sv")), func(it ref.Item) bool { return ref.Equal(it, ref.Lst(ref.Uint(ref.U2, 777))) }) &&
		expect(2, 33, ref.Lst(one, ref.Lst()), zero) &&
		expect(2, 33, ref.Lst(one, ref.Lst(ref.Lst(id("r"), ref.Lst(id("probe-sv"))))), zero) &&
		expect(2, 35, ref.Lst(one, ref.Lst(ref.Lst(id("probe-ce"), ref.Lst(id("r"))))), zero) &&
		expect(2, 37, ref.Lst(ref.Bool(true), ref.Lst(id("probe-ce"))), zero) &&
		expect(6, 15, id("probe-ce"), func(it ref.Item) bool {
			return it.K == ref.L && len(it.List) == 3 && ref.Equal(it.List[2], ref.Lst(ref.Lst(id("r"), ref.Lst(ref.Uint(ref.U2, 777)))))
		}) &&
		expect(2, 41, ref.Lst(ref.Asc("GO"), ref.Lst()), func(it ref.Item) bool { return it.K == ref.L && len(it.List) == 2 && ack1(it.List[0]) == 0 }) &&
		expect(7, 3, ref.Lst(id("probe-pp"), ref.Asc("text")), zero) &&
		expect(7, 5, id("probe-pp"), func(it ref.Item) bool {
			return it.K == ref.L && len(it.List) >= 2 && ref.Equal(it.List[0], id("probe-pp")) && ref.Equal(it.List[1], ref.Asc("text"))
		}) &&
		expect(2, 17, ref.Item{}, func(it ref.Item) bool { return it.K == ref.A && len(it.Words) >= 12 })
}

// live calls what an application calls; everything must return.
func (s *p18Run) live() bool {
	if s.isBad() {
		return false
	}
	ok := mon.Within(mon.Hang, func() {
		s.e.P.Connected()
		s.e.P.CurrentState()
		s.e.P.ConnectionCount()
		s.e.P.Timeouts().T3ReplyTimeout()
		if s.G != nil {
			s.G.State()
			s.G.ControlState()
			s.G.ListProcessPrograms()
			s.G.GetEquipmentTime()
		}
	})
	if !ok {
		s.fail("api-hangs", "reading the state of the endpoint does not return within %v\n%s", mon.Hang, head(mon.LibStacks(), 2500))
	}
	s.c.Count("state reads during attacks", 1)
	return ok
}

// barrier waits until everything sent so far is dealt with or the connection is gone.
func (s *p18Run) barrier() (open bool) {
	if s.p.Linktest(mon.Hang) {
		return true
	}
	if !s.p.WaitClosed(time.Second) {
		s.fail("wedged", "neither a linktest.rsp nor the end of the connection within %v\n%s\n%s", mon.Hang, strings.Join(s.p.Log(12), "\n"), head(mon.LibStacks(), 2500))
	}
	return false
}

// items sends decodable messages of every stream and function with hostile items.
func (s *p18Run) items() {
	r := s.r
	if !s.served("at first") {
		return
	}
	n := s.c.N(2000, 8000)
	for i := 0; i < n && !s.isBad(); i++ {
		sf := hostileSF[r.Intn(len(hostileSF))]
		var it ref.Item
		how := ""
		if r.Intn(12) == 0 {
			sf = [2]int{r.Intn(128), r.Intn(256)}
			it, how = ref.Gen(r, 3, 5), "any function"
		} else {
			it, how = hostileBody(r, sf)
		}
		w := sf[1]%2 == 1 && r.Intn(4) > 0
		m := ref.DataMsg(s.e.Session, sf[0], sf[1], w, s.p.NextSys(), it)
		if r.Intn(40) == 0 {
			m.Session = uint16(r.Intn(65536))
		}
		if r.Intn(40) == 0 {
			m.Sys = r.Uint32() >> uint(r.Intn(32)) // perhaps of a transaction of the endpoint's
		}
		s.note("S%dF%d W=%v %s: %s", sf[0], sf[1], w, how, cutStr(it.String(), 160))
		if i%50 == 0 {
			s.c.Sample(map[string]any{"endpoint": s.kind, "message": m.String(), "how": how})
		}
		s.c.Case(fmt.Sprintf("%s S%dF%d %s", s.kind[:1], sf[0], sf[1], how), true)
		s.p.Send(m)
		if i%20 == 19 {
			s.apiCalls()
			s.live()
			if !s.barrier() && !s.isBad() {
				s.c.Count("connections lost to hostile messages", 1)
				if !s.relink("after hostile messages") {
					return
				}
			}
		}
		if i%400 == 399 && !s.served("after hostile messages") {
			return
		}
	}
}

// apiCalls makes the endpoint itself send while it is under attack. The peer acknowledges.
func (s *p18Run) apiCalls() {
	r := s.r
	if s.G == nil || s.host {
		return
	}
	k := r.Intn(3)
	ok := mon.Within(mon.Hang, func() {
		switch k {
		case 0:
			s.G.RaiseAlarm(1+r.Intn(4), r.Intn(2) == 0)
		case 1:
			s.G.TriggerCollectionEvent(1, "A", "probe-ce")
		case 2:
			s.G.SwitchControlOnline()
			s.G.SwitchControlOffline()
		}
	})
	_ = ok // a request to a peer that does not answer may take T3; it is not this oracle's business
}

// bytes sends byte streams of all kinds, in and before SELECTED.
func (s *p18Run) bytes() {
	r := s.r
	active := strings.HasSuffix(s.kind, "active")
	n := s.c.N(16, 100)
	if active {
		n = s.c.N(6, 30)
	}
	for i := 0; i < n && !s.isBad(); i++ {
		if s.p != nil {
			s.p.Close()
		}
		sel := r.Intn(4) > 0
		var err error
		if sel {
			if i%4 == 1 {
				if !s.served("after hostile bytes") {
					return
				}
			} else if !s.relink("after hostile bytes") {
				return
			}
		} else {
			if active {
				s.e.selStatus.Store(int32(r.Intn(3) - 1))
			}
			if s.p, err = s.e.connect(mon.Hang); err != nil {
				s.fail("not-served", "no connection after hostile bytes: %v\n%s", err, head(mon.LibStacks(), 2500))
				return
			}
		}
		for k := 1 + r.Intn(6); k > 0; k-- {
			b, how := s.hostileBytes()
			s.note("%v selected=%v: % x", how, sel, cutBytes(b))
			s.c.Case(fmt.Sprintf("%s %s selected=%v", s.kind, how, sel), true)
			if r.Intn(3) == 0 { // in pieces
				for len(b) > 0 {
					k := 1 + r.Intn(len(b))
					if s.p.SendRaw(b[:k], ref.Msg{}) != nil {
						break
					}
					b = b[k:]
					if r.Intn(3) == 0 {
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
					}
				}
			} else {
				s.p.SendRaw(b, ref.Msg{})
			}
			if s.p.Closed() {
				break
			}
		}
		s.live()
		switch r.Intn(5) {
		case 0:
			s.p.Reset()
		case 1:
			if t, ok := s.p.Conn.(*net.TCPConn); ok {
				t.CloseWrite()
			}
		case 2:
			s.p.WaitClosed(50 * time.Millisecond)
		}
		s.c.Count("hostile connections", 1)
	}
}

func cutBytes(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func (s *p18Run) hostileBytes() ([]byte, string) {
	r := s.r
	sf := hostileSF[r.Intn(len(hostileSF))]
	it := hostileTemplates[sf](r)
	m := ref.DataMsg(s.e.Session, sf[0], sf[1], sf[1]%2 == 1, r.Uint32(), it)
	b := m.Bytes()
	flip := func(from int) {
		if len(b) > from {
			for i := 1 + r.Intn(3); i > 0; i-- {
				b[from+r.Intn(len(b)-from)] = byte(r.Intn(256))
			}
		}
	}
	switch r.Intn(16) {
	case 0:
		flip(14)
		return b, "item bytes changed"
	case 1:
		flip(4)
		return b, "bytes changed"
	case 2:
		b = b[:4+r.Intn(len(b)-3)]
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return b, "truncated item"
	case 3:
		binary.BigEndian.PutUint32(b, []uint32{0, 1, 9, 10, 11, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 4}[r.Intn(11)])
		return b, "wrong length"
	case 4:
		b = append(b, make([]byte, 1+r.Intn(5))...)
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return b, "bytes after the item"
	case 5:
		b = make([]byte, r.Intn(200))
		r.Read(b)
		return b, "noise"
	case 6:
		c := ref.Ctrl(byte(r.Intn(12)), []uint16{0xFFFF, s.e.Session, 0}[r.Intn(3)], r.Uint32()>>uint(r.Intn(32)))
		c.Byte2, c.Byte3 = byte(r.Intn(256)), byte(r.Intn(256))
		return c.Bytes(), "control message"
	case 7:
		c := ref.Ctrl(byte(r.Intn(256)), uint16(r.Intn(65536)), r.Uint32())
		c.PType = byte(r.Intn(3))
		c.Text = make([]byte, r.Intn(30))
		r.Read(c.Text)
		return c.Bytes(), "odd session or presentation type"
	case 8: // lists in lists
		d := []int{10, 256, 257, 3000, 200000}[r.Intn(5)]
		m.Text = nil
		for i := 0; i < d; i++ {
			m.Text = append(m.Text, 0x01, 0x01)
		}
		m.Text = append(m.Text, 0x01, 0x00)
		return m.Bytes(), fmt.Sprintf("%d lists in lists", d)
	case 9: // a length the message does not have
		m.Text = []byte{[]byte{0x03, 0x23, 0x43, 0x27, 0xB3, 0x93, 0xA3, 0x63}[r.Intn(8)], 0xFF, 0xFF, 0xFF}
		return m.Bytes(), "item of 16 MB announced"
	case 10:
		m.Text = []byte{byte(r.Intn(256)), byte(r.Intn(4)), 0, 0, 0}
		return m.Bytes(), "any format byte"
	case 11:
		m.Text = []byte{0x41, 0x03, 0x80 | byte(r.Intn(128)), 'a', 0xFF}
		return m.Bytes(), "text beyond ASCII"
	case 12: // many small messages in one piece
		b = nil
		for i := 0; i < 50; i++ {
			sf := hostileSF[r.Intn(len(hostileSF))]
			it, _ := hostileBody(r, sf)
			b = append(b, ref.DataMsg(s.e.Session, sf[0], sf[1], false, r.Uint32(), it).Bytes()...)
		}
		return b, "50 messages in one piece"
	case 13:
		m.Byte2 |= 0x80
		m.Byte3 = byte(r.Intn(128) * 2)
		return m.Bytes(), "reply with wait bit"
	case 14:
		b = nil
		for i := 0; i < 20; i++ {
			b = append(b, ref.Ctrl([]byte{ref.SelectReq, ref.DeselectReq, ref.LinktestReq, ref.SelectReq, ref.DeselectReq, 7, 2, 4, 6}[r.Intn(9)], 0xFFFF, r.Uint32()).Bytes()...)
		}
		return b, "20 control messages"
	}
	return ref.Ctrl(9, 0xFFFF, r.Uint32()).Bytes(), "separate"
}

// replies answers the library's own requests in hostile ways.
func (s *p18Run) replies() {
	r := s.r
	calls := s.calls()
	n := s.c.N(60, 500)
	if !s.served("at first") {
		return
	}
	var mode atomic.Int32
	var last atomic.Pointer[string]
	var rmu sync.Mutex
	hr := s.c.Rng(s.label + "-hook")
	hook := func(p *peer.Peer, m ref.Msg) bool {
		if m.PType != 0 || m.SType != ref.Data || m.Function()%2 == 0 || !m.W() {
			return false
		}
		rmu.Lock()
		defer rmu.Unlock()
		out, how := hostileReply(hr, m, int(mode.Load()))
		last.Store(&how)
		for _, b := range out {
			p.SendRaw(b, ref.Msg{})
		}
		if how == "connection closed" {
			p.Close()
		}
		return true
	}
	for i := 0; i < n && !s.isBad(); i++ {
		if s.p.Closed() || !s.e.selected() || s.G.State() != gem.CommunicationStateCommunicating {
			if s.p.Close(); !s.relink("after hostile replies") {
				return
			}
		}
		if i%20 == 19 && !s.served("after hostile replies") {
			return
		}
		s.e.setHook(hook)
		m := int32(0)
		if r.Intn(3) == 0 {
			m = int32(1 + r.Intn(hostileReplies-1))
		}
		if m == 8 && r.Intn(3) > 0 { // no answer: costs T3
			m = 0
		}
		mode.Store(m)
		how := "no request"
		last.Store(&how)
		k := r.Intn(len(calls))
		s.note("call %s, answered in way %d", calls[k].name, m)
		var pv any
		var stack string
		ok := mon.Within(mon.Hang, func() { pv, stack = mon.Recover(func() { calls[k].f(r) }) })
		how = *last.Load()
		s.note("  that was: %s", how)
		s.c.Case(fmt.Sprintf("%s %s", calls[k].name, how), true)
		if !ok {
			s.fail("call-hangs", "%s does not return within %v with T3=1s when answered like this: %s\n%s", calls[k].name, mon.Hang, how, head(mon.LibStacks(), 2500))
			return
		}
		if pv != nil {
			s.fail("call-panics", "%s panics when answered like this: %s: %v\n%s", calls[k].name, how, pv, head(stack, 2000))
			return
		}
		s.c.Count("library requests answered in hostile ways", 1)
		s.live()
	}
}

type p18Call struct {
	name string
	f    func(r *rand.Rand)
}

func (s *p18Run) calls() []p18Call {
	g := s.G
	cs := []p18Call{
		{"UploadProcessProgram", func(r *rand.Rand) { g.UploadProcessProgram("A", "text") }},
		{"RequestProcessProgram", func(r *rand.Rand) { g.RequestProcessProgram("A") }},
		{"SendAndWait", func(r *rand.Rand) {
			sf := hostileSF[r.Intn(len(hostileSF))]
			if sf[1]%2 == 1 {
				m, err := s.e.P.SendAndWait(dataNode(sf[0], sf[1], 1, ref.Lst()))
				if err == nil && m != nil {
					_ = m.String()
					_ = m.ToBytes()
				}
			}
		}},
	}
	if s.host {
		return append(cs,
			p18Call{"RequestStatusVariables", func(r *rand.Rand) { g.RequestStatusVariables(1, "A") }},
			p18Call{"RequestStatusVariableInfo", func(r *rand.Rand) { g.RequestStatusVariableInfo(1, "A") }},
			p18Call{"RequestEquipmentConstants", func(r *rand.Rand) { g.RequestEquipmentConstants(1, "A") }},
			p18Call{"RequestEquipmentConstantInfo", func(r *rand.Rand) { g.RequestEquipmentConstantInfo(1, "A") }},
			p18Call{"RequestEquipmentConstantInfo all", func(r *rand.Rand) { g.RequestEquipmentConstantInfo() }},
			p18Call{"RequestStatusVariableInfo all", func(r *rand.Rand) { g.RequestStatusVariableInfo() }},
			p18Call{"SendEquipmentConstantValues", func(r *rand.Rand) {
				g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: ast.NewUintNode(4, 3)}})
			}},
			p18Call{"DefineReports", func(r *rand.Rand) { g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []any{1}}) }},
			p18Call{"LinkEventReports", func(r *rand.Rand) { g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []any{1}}) }},
			p18Call{"EnableEventReports", func(r *rand.Rand) { g.EnableEventReports(true, 1) }},
			p18Call{"RequestCollectionEventReport", func(r *rand.Rand) { g.RequestCollectionEventReport(1) }},
			p18Call{"RequestDateTime", func(r *rand.Rand) { g.RequestDateTime() }},
			p18Call{"SetDateTime", func(r *rand.Rand) { g.SetDateTime("2026010203040500") }},
			p18Call{"SendRemoteCommand", func(r *rand.Rand) {
				g.SendRemoteCommand("GO", []gem.RemoteCommandParameterValue{{Name: "A", Value: 1}})
			}},
			p18Call{"EnableAlarm", func(r *rand.Rand) { g.EnableAlarm(1) }})
	}
	return append(cs,
		p18Call{"RaiseAlarm", func(r *rand.Rand) { g.RaiseAlarm(1, true) }},
		p18Call{"ClearAlarm", func(r *rand.Rand) { g.ClearAlarm(1) }},
		p18Call{"TriggerCollectionEvent", func(r *rand.Rand) { g.TriggerCollectionEvent("A", 1) }},
		p18Call{"SwitchControlOnline", func(r *rand.Rand) {
			g.SwitchControlOffline()
			g.SwitchControlOnline()
			time.Sleep(5 * time.Millisecond)
		}})
}

const hostileReplies = 14

func hostileReply(r *rand.Rand, m ref.Msg, mode int) (out [][]byte, how string) {
	st, fn := m.Stream(), m.Function()+1
	data := func(s, f int, w bool, sys uint32, it ref.Item) {
		out = append(out, ref.DataMsg(m.Session, s, f, w, sys, it).Bytes())
	}
	body := func() (ref.Item, string) {
		if _, ok := hostileTemplates[[2]int{st, fn}]; ok {
			return hostileBody(r, [2]int{st, fn})
		}
		return ref.Gen(r, 3, 5), "any item"
	}
	it, form := body()
	switch mode {
	case 0:
		data(st, fn, false, m.Sys, it)
		return out, fmt.Sprintf("S%dF%d %s: %s", st, fn, form, cutStr(it.String(), 200))
	case 1:
		data(st, r.Intn(128)*2, false, m.Sys, it)
		return out, "another function"
	case 2:
		data(r.Intn(128), fn, false, m.Sys, it)
		return out, "another stream"
	case 3:
		data(st, 0, false, m.Sys, ref.Item{})
		return out, "abort"
	case 4:
		h, f := hhead(r), []int{1, 3, 5, 7, 9, 11, 13, 0, 2}[r.Intn(9)]
		if r.Intn(2) == 0 {
			h = ref.Bin(m.Header()...)
		}
		data(9, f, false, []uint32{m.Sys, m.Sys, r.Uint32()}[r.Intn(3)], h)
		return out, fmt.Sprintf("S9F%d", f)
	case 5:
		for i := 0; i < 4; i++ {
			it, _ := body()
			data(st, fn, false, m.Sys, it)
		}
		return out, "four replies"
	case 6:
		data(st, fn, false, m.Sys+1, it)
		data(st, fn, false, m.Sys, it)
		return out, "a reply nobody waits for, and one"
	case 7:
		data(st, fn|1, true, m.Sys, it)
		data(st, fn, false, m.Sys, it)
		return out, "a primary with the same system bytes, and a reply"
	case 8:
		return nil, "no answer"
	case 9:
		return nil, "connection closed"
	case 10:
		b := ref.DataMsg(m.Session, st, fn, false, m.Sys, it).Bytes()
		b = b[:4+r.Intn(len(b)-4)]
		binary.BigEndian.PutUint32(b, uint32(len(b)-4))
		return [][]byte{b}, "truncated reply"
	case 11:
		c := ref.Ctrl(byte(1+r.Intn(9)), 0xFFFF, m.Sys)
		c.Byte3 = byte(r.Intn(5))
		out = append(out, c.Bytes())
		data(st, fn, false, m.Sys, it)
		return out, fmt.Sprintf("control message %d with the same system bytes, and a reply", c.SType)
	case 12:
		c := ref.Ctrl(7, m.Session, m.Sys)
		c.Byte2, c.Byte3 = byte(r.Intn(10)), byte(r.Intn(6))
		return [][]byte{c.Bytes(), ref.DataMsg(m.Session, st, fn, false, m.Sys, it).Bytes()}, "reject, and a reply"
	}
	b := ref.DataMsg(m.Session, st, fn, true, m.Sys, it).Bytes()
	return [][]byte{b}, "reply with wait bit"
}

// flood sends requests without reading the replies until nothing moves any more.
func (s *p18Run) flood() {
	for round := 0; round < s.c.N(2, 6) && !s.isBad(); round++ {
		if !s.served("before a flood") {
			return
		}
		sf, body := [2]int{1, 1}, ref.Item{}
		if !s.host {
			sf = [2]int{1, 11}
			body = ref.Lst()
		}
		var b []byte
		for i := 0; i < 200; i++ {
			b = append(b, ref.DataMsg(s.e.Session, sf[0], sf[1], true, uint32(i), body).Bytes()...)
		}
		s.p.Pause()
		if t, ok := s.p.Conn.(*net.TCPConn); ok {
			t.SetReadBuffer(4096)
		}
		sent := 0
		for sent < 64<<20 {
			s.p.Conn.SetWriteDeadline(time.Now().Add(500 * time.Millisecond))
			n, err := s.p.Conn.Write(b)
			sent += n
			if err != nil {
				break
			}
		}
		s.note("flooded with %d bytes of S%dF%d, reading nothing", sent, sf[0], sf[1])
		s.c.Max("bytes of a flood", sent)
		s.c.Case(fmt.Sprintf("%s flood", s.kind), true)
		s.live()
		s.live()
		s.p.Reset()
		s.p.Resume()
	}
}

// p18Codec lets hostile clients at a link server of every codec; a good client is served at the same time.
func p18Codec(c *mon.Ctx, label string, i int) {
	r := c.Rng(label)
	type msg struct{ N int }
	js := codec.Json()
	js.Register(msg{})
	protos := []struct {
		name string
		p    link.Protocol
		in   func(n int) []byte // a message of a well-behaved client and the reply to it
	}{
		{"json", js, nil},
		{"fixlen json", codec.FixLen(js, 2, binary.BigEndian, 1<<16, 1<<16), nil},
		{"bufio json", codec.Bufio(js, 1024, 1024), nil},
		{"fixlen8 byte", codec.FixLen(codec.Byte(), 8, binary.BigEndian, 1<<20, 1<<20), nil},
		{"secs", codec.SECSII(), nil},
		{"bufio secs", codec.Bufio(codec.SECSII(), 1024, 1024), nil},
		{"byte", codec.Byte(), nil},
	}
	p := protos[i%len(protos)]
	secs := strings.HasSuffix(p.name, "secs")
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	var seen atomic.Int64
	srv := link.NewServer(ln, p.p, 16, link.HandlerFunc(func(ss *link.Session) {
		defer ss.Close()
		for {
			m, err := ss.Receive()
			if err != nil {
				return
			}
			seen.Add(1)
			if secs {
				m = m.(interface{ ToBytes() []byte }).ToBytes()
			}
			if ss.Send(m) != nil {
				return
			}
		}
	}))
	done := make(chan struct{})
	go func() { srv.Serve(); close(done) }()
	bad := func(key, f string, a ...any) {
		c.Violate(key, map[string]any{"label": label, "codec": p.name}, "%s (%s): %s", label, p.name, fmt.Sprintf(f, a...))
	}
	// the good client
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; ; n++ {
			select {
			case <-stop:
				return
			default:
			}
			conn, err := net.DialTimeout("tcp", ln.Addr().String(), mon.Hang)
			if err != nil {
				bad("codec-not-served", "%v", err)
				return
			}
			conn.SetDeadline(time.Now().Add(mon.Hang))
			var ask []byte
			switch {
			case secs:
				ask = ref.DataMsg(1, 1, 1, true, uint32(n), ref.Lst(ref.Uint(ref.U4, uint64(n)))).Bytes()
			case p.name == "byte":
				ask = []byte("hello")
			case p.name == "fixlen8 byte":
				ask = append(binary.BigEndian.AppendUint64(nil, 5), "hello"...)
			default:
				t := fmt.Sprintf("{\"Head\":\"\",\"Body\":{\"N\":%d}}\n", n)
				ask = []byte(t)
				if p.name == "fixlen json" {
					ask = append(binary.BigEndian.AppendUint16(nil, uint16(len(t))), t...)
				}
			}
			conn.Write(ask)
			got := make([]byte, len(ask))
			_, err = io.ReadFull(conn, got)
			conn.Close()
			if err != nil || string(got) != string(ask) {
				bad("codec-not-served", "a well-behaved client sent %q and got %q (%v)", ask, got, err)
				return
			}
			c.Count("well-behaved codec clients served", 1)
			time.Sleep(time.Millisecond)
		}
	}()
	for k := 0; k < c.N(60, 300) && c.Violations() == 0; k++ {
		conn, err := net.DialTimeout("tcp", ln.Addr().String(), mon.Hang)
		if err != nil {
			bad("codec-not-served", "%v", err)
			break
		}
		var b []byte
		how := ""
		switch r.Intn(5) {
		case 0:
			b = make([]byte, r.Intn(400))
			r.Read(b)
			how = "noise"
		case 1:
			b = binary.BigEndian.AppendUint64(nil, []uint64{0, 1, 1 << 16, 1<<20 + 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(8)])
			how = "lengths"
		case 2:
			t := []string{"null", "{}", "{\"Head\":5}", "{\"Head\":\"x\",\"Body\":null}", "{\"Body\":{\"N\":\"x\"}}", "[[[[[[", strings.Repeat("[", 20000), "{\"Head\":\"verifharness/props/msg\",\"Body\":[1,2]}", "{\"Head\":\"verifharness/props/msg\",\"Body\":{\"N\":1e400}}"}[r.Intn(9)]
			b = []byte(t)
			if strings.HasPrefix(p.name, "fixlen json") {
				b = append(binary.BigEndian.AppendUint16(nil, uint16(len(t))), t...)
			}
			how = "json"
		case 3:
			m := ref.DataMsg(1, r.Intn(128), r.Intn(256), false, r.Uint32(), ref.Gen(r, 3, 5))
			b = m.Bytes()
			if r.Intn(2) == 0 {
				b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
			}
			how = "message"
		case 4:
			m := ref.DataMsg(1, 1, 1, false, 1, ref.Item{})
			for d := []int{300, 5000, 100000}[r.Intn(3)]; d > 0; d-- {
				m.Text = append(m.Text, 1, 1)
			}
			b = m.Bytes()
			how = "lists in lists"
		}
		c.Case(p.name+" "+how, true)
		conn.SetDeadline(time.Now().Add(mon.Hang))
		conn.Write(b)
		switch r.Intn(3) {
		case 0:
			conn.(*net.TCPConn).SetLinger(0)
		case 1:
			conn.(*net.TCPConn).CloseWrite()
			if r.Intn(4) == 0 {
				io.Copy(io.Discard, conn)
			}
		}
		conn.Close()
	}
	close(stop)
	wg.Wait()
	if !mon.Within(mon.Hang, srv.Stop) {
		bad("codec-stop-hangs", "Stop does not return\n%s", head(mon.LibStacks(), 2500))
	}
	ln.Close()
	<-done
	c.Count("hostile codec messages delivered", int(seen.Load()))
}
