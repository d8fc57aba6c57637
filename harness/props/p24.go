package props

import (
	"errors"
	"fmt"
	"math/rand"
	"sync/atomic"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P24", Race: true, Run: p24,
		Rule: "one case is one query (on the wire or by a host call) with its reply compared with the registry model; non-trivial when the registry is not empty; distinct by query, registry size and requested identifiers",
		Assume: []string{"texts are 7-bit ASCII, values have an encoding",
			"a request whose body is no list is answered, the content of the answer is unspecified; an identifier item with several values is not generated",
			"the encoding in which an identifier is reported back is free, its value is not"}})
}

// src is a value source of a variable: what the model expects, and how to make the library show it.
type src struct {
	it  ref.Item
	has bool
	how string
}

func (v src) want() ref.Item {
	if v.has {
		return v.it
	}
	return ref.Lst()
}

type holder struct{ v atomic.Pointer[src] }

func (h *holder) provide() (ast.ItemNode, error) {
	v := h.v.Load()
	switch v.how {
	case "error":
		return nil, errors.New("sensor broken")
	case "value and error":
		return ref.ToAST(v.it), errors.New("stale")
	case "nil":
		return nil, nil
	case "empty item":
		return ast.NewEmptyItemNode(), nil
	}
	return ref.ToAST(v.it), nil
}

func genSrc(r *rand.Rand) *src {
	v := &src{it: ref.Gen(r, 2, 5), has: true, how: "value"}
	switch r.Intn(10) {
	case 0:
		v.how, v.has = "error", false
	case 1:
		v.how, v.has = "nil", false
	case 2:
		v.how, v.has = "value and error", false
	case 3:
		v.how, v.has = "empty item", false
	}
	return v
}

type svModel struct {
	id         gid
	name, unit string
	prov       *holder // nil: stored value
	stored     *src
	sv         *gem.StatusVariable
}

func (m *svModel) want() ref.Item {
	if m.prov != nil {
		return m.prov.v.Load().want()
	}
	return m.stored.want()
}

type ecModel struct {
	id            gid
	name, unit    string
	min, max, def *ref.Item
	prov          *holder
	stored        ref.Item
	ec            *gem.EquipmentConstant
}

func (m *ecModel) want() ref.Item {
	if m.prov != nil {
		return m.prov.v.Load().want()
	}
	return m.stored
}

func orEmpty(it *ref.Item) ref.Item {
	if it == nil {
		return ref.Lst()
	}
	return *it
}

// p24Reg is the registry model next to the equipment it describes.
type p24Reg struct {
	s   *gemRig
	r   *rand.Rand
	svs []*svModel
	ecs []*ecModel
}

func (g *p24Reg) sv(id gid) *svModel {
	for _, m := range g.svs {
		if m.id == id {
			return m
		}
	}
	return nil
}

func (g *p24Reg) ec(id gid) *ecModel {
	for _, m := range g.ecs {
		if m.id == id {
			return m
		}
	}
	return nil
}

func (g *p24Reg) addSV() {
	r := g.r
	m := &svModel{id: genID(r), name: gemText(r, 20), unit: gemText(r, 6)}
	var opts []gem.StatusVariableOption
	if r.Intn(2) == 0 {
		m.prov = &holder{}
		m.prov.v.Store(genSrc(r))
		opts = append(opts, gem.WithStatusValueProvider(m.prov.provide))
	}
	m.stored = &src{}
	if r.Intn(4) > 0 {
		m.stored = &src{it: ref.Gen(r, 2, 5), has: true}
		opts = append(opts, gem.WithStatusValue(ref.ToAST(m.stored.it)))
	}
	gv := m.id.goVal(r)
	sv, err := gem.NewStatusVariable(gv, m.name, m.unit, opts...)
	if err != nil {
		g.s.fail("new-sv", "NewStatusVariable(%T %v): %v", gv, gv, err)
		return
	}
	if sv.ID() != m.id.raw() {
		g.s.fail("sv-id", "NewStatusVariable(%T %v).ID() is %v", gv, gv, sv.ID())
		return
	}
	m.sv = sv
	dup := g.sv(m.id) != nil
	err = g.s.G.RegisterStatusVariable(sv)
	g.s.note("register SV %v (%T) = %s: %v", m.id, gv, m.want(), err)
	if dup != (err != nil) {
		g.s.fail("sv-dup", "RegisterStatusVariable(%v), already registered=%v, gives %v", m.id, dup, err)
		return
	}
	if !dup {
		g.svs = append(g.svs, m)
	}
}

func (g *p24Reg) addEC() {
	r := g.r
	m := &ecModel{id: genID(r), name: gemText(r, 20)}
	item := func() *ref.Item { it := ref.Gen(r, 1, 4); return &it }
	m.def = item()
	m.stored = *m.def
	var opts []gem.EquipmentConstantOption
	if r.Intn(2) == 0 {
		m.unit = gemText(r, 6)
		opts = append(opts, gem.WithEquipmentConstantUnit(m.unit))
	}
	if r.Intn(2) == 0 {
		m.min = item()
		opts = append(opts, gem.WithEquipmentConstantMin(ref.ToAST(*m.min)))
	}
	if r.Intn(2) == 0 {
		m.max = item()
		opts = append(opts, gem.WithEquipmentConstantMax(ref.ToAST(*m.max)))
	}
	if r.Intn(3) == 0 {
		m.prov = &holder{}
		m.prov.v.Store(genSrc(r))
		opts = append(opts, gem.WithEquipmentConstantValueProvider(m.prov.provide))
	}
	gv := m.id.goVal(r)
	ec, err := gem.NewEquipmentConstant(gv, m.name, ref.ToAST(*m.def), opts...)
	if err != nil {
		g.s.fail("new-ec", "NewEquipmentConstant(%T %v): %v", gv, gv, err)
		return
	}
	m.ec = ec
	dup := g.ec(m.id) != nil
	err = g.s.G.RegisterEquipmentConstant(ec)
	g.s.note("register EC %v (%T) = %s: %v", m.id, gv, m.want(), err)
	if dup != (err != nil) {
		g.s.fail("ec-dup", "RegisterEquipmentConstant(%v), already registered=%v, gives %v", m.id, dup, err)
		return
	}
	if !dup {
		g.ecs = append(g.ecs, m)
	}
}

func (g *p24Reg) change() {
	r := g.r
	if len(g.svs) > 0 {
		m := g.svs[r.Intn(len(g.svs))]
		switch r.Intn(4) {
		case 0:
			m.stored = &src{it: ref.Gen(r, 2, 5), has: true}
			m.sv.SetValue(ref.ToAST(m.stored.it))
			g.s.note("SV %v stored = %s", m.id, m.stored.it)
		case 1:
			m.prov = &holder{}
			m.prov.v.Store(genSrc(r))
			m.sv.SetValueProvider(m.prov.provide)
			g.s.note("SV %v provider = %s", m.id, m.want())
		case 2:
			m.prov = nil
			m.sv.SetValueProvider(nil)
			g.s.note("SV %v without provider", m.id)
		default:
			if m.prov != nil {
				m.prov.v.Store(genSrc(r))
				g.s.note("SV %v provider gives %s", m.id, m.want())
			}
		}
	}
	if len(g.ecs) > 0 {
		m := g.ecs[r.Intn(len(g.ecs))]
		if m.prov != nil {
			m.prov.v.Store(genSrc(r))
		} else {
			m.stored = ref.Gen(r, 1, 4)
			if err := m.ec.ApplyValue(ref.ToAST(m.stored)); err != nil {
				g.s.fail("ec-apply", "ApplyValue on constant %v: %v", m.id, err)
			}
		}
		g.s.note("EC %v = %s", m.id, m.want())
	}
}

// pick is a requested identifier: of the registry mostly.
func (g *p24Reg) pick(ec bool) gid {
	n := len(g.svs)
	if ec {
		n = len(g.ecs)
	}
	if n == 0 || g.r.Intn(4) == 0 {
		return genID(g.r)
	}
	k := g.r.Intn(n)
	id := gid{}
	if ec {
		id = g.ecs[k].id
	} else {
		id = g.svs[k].id
	}
	switch g.r.Intn(12) { // the same thing, but of the other kind
	case 0:
		if id.isStr {
			return gid{num: uint64(len(id.str))}
		}
		return gid{isStr: true, str: fmt.Sprint(id.num)}
	case 1:
		if !id.isStr {
			return gid{num: id.num & 0xFFFFFFFF}
		}
	}
	return id
}

// entry is what one requested identifier must give; bad: not an identifier at all.
func (g *p24Reg) entry(q int, id gid, bad bool) func(ref.Item) string {
	eq := func(want ref.Item) func(ref.Item) string {
		return func(got ref.Item) string {
			if !ref.Equal(got, want.Normal()) {
				return fmt.Sprintf("%s instead of %s", cutStr(got.String(), 300), cutStr(want.Normal().String(), 300))
			}
			return ""
		}
	}
	info := func(rest ...ref.Item) func(ref.Item) string {
		return func(got ref.Item) string {
			if got.K != ref.L || len(got.List) != 1+len(rest) {
				return "no description: " + cutStr(got.String(), 300)
			}
			if bad && !ref.Equal(got.List[0], ref.Lst()) || !bad && !isID(got.List[0], id) {
				return "identifier " + cutStr(got.List[0].String(), 100)
			}
			return eq(ref.Lst(rest...))(ref.Lst(got.List[1:]...))
		}
	}
	sv, ec := g.sv(id), g.ec(id)
	if bad {
		sv, ec = nil, nil
	}
	switch q {
	case 0:
		if sv == nil {
			return eq(ref.Lst())
		}
		return eq(sv.want())
	case 1:
		if sv == nil {
			return info(ref.Asc(""), ref.Asc(""))
		}
		return info(ref.Asc(sv.name), ref.Asc(sv.unit))
	case 2:
		if ec == nil {
			return eq(ref.Lst())
		}
		return eq(ec.want())
	}
	if ec == nil {
		return info(ref.Asc(""), ref.Lst(), ref.Lst(), ref.Lst(), ref.Asc(""))
	}
	return info(ref.Asc(ec.name), orEmpty(ec.min), orEmpty(ec.max), *ec.def, ref.Asc(ec.unit))
}

var p24SF = [4][2]int{{1, 3}, {1, 11}, {2, 13}, {2, 29}}

func (g *p24Reg) all(q int) []gid {
	var out []gid
	if q < 2 {
		for _, m := range g.svs {
			out = append(out, m.id)
		}
	} else {
		for _, m := range g.ecs {
			out = append(out, m.id)
		}
	}
	return out
}

// query asks on the wire.
func (g *p24Reg) query() {
	r, s := g.r, g.s
	q := r.Intn(4)
	sf := p24SF[q]
	if r.Intn(25) == 0 { // no list
		body := ref.Item{}
		if r.Intn(2) == 0 {
			body = notID(r)
			if body.K == ref.L {
				body = ref.Uint(ref.U4, 1)
			}
		}
		s.note("S%dF%d %s", sf[0], sf[1], body)
		s.ask(sf[0], sf[1], body)
		return
	}
	n := r.Intn(8)
	if r.Intn(10) == 0 {
		n = 40 + r.Intn(300)
	}
	var ids []gid
	var bad []bool
	var wire []ref.Item
	for i := 0; i < n; i++ {
		if r.Intn(10) == 0 {
			ids, bad, wire = append(ids, gid{}), append(bad, true), append(wire, notID(r))
			continue
		}
		id := g.pick(q >= 2)
		ids, bad, wire = append(ids, id), append(bad, false), append(wire, id.wire(r))
	}
	if n == 0 {
		ids = g.all(q)
		bad = make([]bool, len(ids))
	}
	s.note("S%dF%d %s", sf[0], sf[1], ref.Lst(wire...))
	s.c.Case(fmt.Sprint(q, len(g.svs), len(g.ecs), ids, bad), len(g.svs)+len(g.ecs) > 0)
	s.c.Count(fmt.Sprintf("S%dF%d on the wire", sf[0], sf[1]), 1)
	s.c.Count("entries compared", len(ids))
	got, ok := s.ask(sf[0], sf[1], ref.Lst(wire...))
	if !ok {
		return
	}
	if got.K != ref.L || len(got.List) != len(ids) {
		s.fail("entry-count", "S%dF%d for %d identifiers (%d requested) is answered with %s", sf[0], sf[1], len(ids), n, cutStr(got.String(), 400))
		return
	}
	for i, id := range ids {
		if d := g.entry(q, id, bad[i])(got.List[i]); d != "" {
			s.fail(fmt.Sprintf("entry:S%dF%d", sf[0], sf[1]), "S%dF%d of %d identifiers, entry %d for %v (identifier: %v): %s", sf[0], sf[1], n, i, id, !bad[i], d)
			return
		}
	}
}

// hostCall asks through a library host.
func (g *p24Reg) hostCall(h *gem.GemHandler) {
	r, s := g.r, g.s
	q := r.Intn(4)
	n := r.Intn(7)
	if r.Intn(10) == 0 {
		n = 40 + r.Intn(400)
	}
	var ids []gid
	var args []any
	for i := 0; i < n; i++ {
		id := g.pick(q >= 2)
		ids, args = append(ids, id), append(args, id.goVal(r))
	}
	badArg := n > 0 && r.Intn(12) == 0
	if badArg {
		args[r.Intn(n)] = notGoID(r)
	}
	s.note("host call %d %v", q, args)
	s.c.Case(fmt.Sprint("host", q, len(g.svs), len(g.ecs), ids), len(g.svs)+len(g.ecs) > 0)
	s.c.Count("host calls", 1)
	var err error
	var got []any
	hung := !mon.Within(mon.Hang, func() {
		switch q {
		case 0:
			var v []gem.StatusValue
			v, err = h.RequestStatusVariables(args...)
			for _, x := range v {
				got = append(got, x)
			}
		case 1:
			var v []gem.StatusVariableInfo
			v, err = h.RequestStatusVariableInfo(args...)
			for _, x := range v {
				got = append(got, x)
			}
		case 2:
			var v []gem.EquipmentConstantValue
			v, err = h.RequestEquipmentConstants(args...)
			for _, x := range v {
				got = append(got, x)
			}
		case 3:
			var v []gem.EquipmentConstantInfo
			v, err = h.RequestEquipmentConstantInfo(args...)
			for _, x := range v {
				got = append(got, x)
			}
		}
	})
	if hung {
		s.fail("host-hangs", "host call %d %v does not return", q, args)
		return
	}
	if badArg || n == 0 && q%2 == 0 {
		if err == nil {
			s.fail("host-bad-id", "host call %d with %#v gives no error", q, args)
		}
		return
	}
	if err != nil {
		s.fail("host-error", "host call %d %v: %v", q, args, err)
		return
	}
	if n == 0 {
		ids = g.all(q)
	}
	if len(got) != len(ids) {
		s.fail("host-count", "host call %d %v gives %d entries instead of %d", q, args, len(got), len(ids))
		return
	}
	for i, id := range ids {
		var gotID any
		var wire ref.Item
		conv := func(n ast.ItemNode) ref.Item {
			if n == nil {
				return ref.Item{}
			}
			it, err := ref.FromAST(n)
			if err != nil {
				return ref.Asc("unreadable: " + err.Error())
			}
			return it
		}
		switch v := got[i].(type) {
		case gem.StatusValue:
			gotID, wire = v.ID, conv(v.Value)
		case gem.EquipmentConstantValue:
			gotID, wire = v.ID, conv(v.Value)
		case gem.StatusVariableInfo:
			gotID, wire = v.ID, ref.Lst(id.wire(r), ref.Asc(v.Name), ref.Asc(v.Unit))
		case gem.EquipmentConstantInfo:
			gotID, wire = v.ID, ref.Lst(id.wire(r), ref.Asc(v.Name), conv(v.Min), conv(v.Max), conv(v.Default), ref.Asc(v.Unit))
		}
		if gotID != id.raw() {
			s.fail("host-id", "host call %d %v: entry %d has identifier %v", q, args, i, gotID)
			return
		}
		if d := g.entry(q, id, false)(wire); d != "" {
			s.fail("host-entry", "host call %d %v, entry %d for %v: %s", q, args, i, id, d)
			return
		}
	}
}

func p24(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(32, 240), func(label string, i int) {
		s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := &p24Reg{s: s, r: s.r}
		for k := 0; k < c.N(120, 400) && !s.isBad(); k++ {
			g.step(nil)
		}
		if i < 2 {
			c.Sample(map[string]any{"case": label, "status variables": len(g.svs), "constants": len(g.ecs), "last": s.hist[len(s.hist)-3:]})
		}
	})
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) {
		s := newGemPair(c, label, nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := &p24Reg{s: s.gemRig, r: s.r}
		if i%4 == 2 { // namelists of hundreds of entries
			for k := 0; k < 350 && !s.isBad(); k++ {
				g.addSV()
				g.addEC()
			}
			c.Max("status_variables_of_one_equipment", len(g.svs))
		}
		for k := 0; k < c.N(120, 400) && !s.isBad(); k++ {
			g.step(s.H)
		}
		if _, err := s.E.RequestStatusVariables(1); err == nil {
			s.fail("equipment-queries", "RequestStatusVariables on equipment succeeds")
		}
		if err := s.H.RegisterStatusVariable(g.newSV()); err == nil {
			s.fail("host-registers", "RegisterStatusVariable on a host succeeds")
		}
	})
	jobs = addJobs(jobs, "raw-equipment", c.N(8, 60), func(label string, i int) { p24Raw(c, label, i) })
	gemJobs(c, 16, jobs)
}

func (g *p24Reg) newSV() *gem.StatusVariable {
	sv, _ := gem.NewStatusVariable(1, "x", "")
	return sv
}

func (g *p24Reg) step(h *gem.GemHandler) {
	switch k := g.r.Intn(20); {
	case k < 2:
		g.addSV()
	case k < 4:
		g.addEC()
	case k < 8:
		g.change()
	case h != nil:
		g.hostCall(h)
	default:
		g.query()
	}
}

// p24Raw has a raw peer answer the host's queries: what it sends is what the calls return, and a
// reply that does not fit the request is an error.
func p24Raw(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply atomic.Pointer[ref.Item]
	var asked atomic.Pointer[ref.Msg]
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.W() {
			for _, sf := range p24SF {
				if m.Stream() == sf[0] && m.Function() == sf[1] {
					asked.Store(&m)
					p.Send(ref.DataMsg(m.Session, sf[0], sf[1]+1, false, m.Sys, *reply.Load()))
					return true
				}
			}
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(60, 300) && !s.isBad(); k++ {
		q := r.Intn(4)
		ids := genIDs(r, 1+r.Intn(5))
		var args []any
		for _, id := range ids {
			args = append(args, id.goVal(r))
		}
		want := ref.Item{K: ref.L}
		for _, id := range ids {
			switch q {
			case 1:
				want.List = append(want.List, ref.Lst(id.wire(r), ref.Asc(gemText(r, 9)), ref.Asc(gemText(r, 4))))
			case 3:
				want.List = append(want.List, ref.Lst(id.wire(r), ref.Asc(gemText(r, 9)), ref.Gen(r, 1, 3), ref.Gen(r, 1, 3), ref.Gen(r, 1, 3), ref.Asc(gemText(r, 4))))
			default:
				want.List = append(want.List, ref.Gen(r, 2, 4))
			}
		}
		wrong := ""
		if r.Intn(4) == 0 {
			switch r.Intn(4) {
			case 0:
				if q%2 == 0 {
					wrong = "an entry missing"
					want.List = want.List[1:]
				}
			case 1:
				if q%2 == 0 {
					wrong = "an entry too many"
					want.List = append(want.List, ref.Lst())
				}
			case 2:
				wrong = "not a list"
				want = ref.Uint(ref.U4, 1)
			case 3:
				if q%2 == 1 {
					wrong = "a malformed entry"
					want.List[r.Intn(len(want.List))] = ref.Asc("x")
				}
			}
		}
		reply.Store(&want)
		s.note("call %d %v answered by %s %s", q, args, want, wrong)
		c.Case(fmt.Sprint("raw", q, ids, wrong), true)
		c.Count("host calls answered by the raw peer", 1)
		var err error
		got := ref.Item{K: ref.L}
		conv := func(n ast.ItemNode) ref.Item { it, _ := ref.FromAST(n); return it }
		switch q {
		case 0:
			var v []gem.StatusValue
			v, err = s.G.RequestStatusVariables(args...)
			for j, x := range v {
				got.List = append(got.List, conv(x.Value))
				if j >= len(ids) || x.ID != ids[j].raw() {
					s.fail("raw-id", "entry %d has identifier %v", j, x.ID)
				}
			}
		case 1:
			var v []gem.StatusVariableInfo
			v, err = s.G.RequestStatusVariableInfo(args...)
			for j, x := range v {
				if j < len(ids) && x.ID == ids[j].raw() && j < len(want.List) {
					got.List = append(got.List, ref.Lst(want.List[j].List[0], ref.Asc(x.Name), ref.Asc(x.Unit)))
				}
			}
		case 2:
			var v []gem.EquipmentConstantValue
			v, err = s.G.RequestEquipmentConstants(args...)
			for j, x := range v {
				got.List = append(got.List, conv(x.Value))
				if j >= len(ids) || x.ID != ids[j].raw() {
					s.fail("raw-id", "entry %d has identifier %v", j, x.ID)
				}
			}
		case 3:
			var v []gem.EquipmentConstantInfo
			v, err = s.G.RequestEquipmentConstantInfo(args...)
			for j, x := range v {
				if j < len(ids) && x.ID == ids[j].raw() && j < len(want.List) {
					got.List = append(got.List, ref.Lst(want.List[j].List[0], ref.Asc(x.Name), conv(x.Min), conv(x.Max), conv(x.Default), ref.Asc(x.Unit)))
				}
			}
		}
		if wrong != "" {
			if err == nil {
				s.fail("raw-wrong-accepted", "a reply with %s is accepted", wrong)
			}
			continue
		}
		if err != nil || !ref.Equal(got, want.Normal()) {
			s.fail("raw-result", "call %d: %v, result %s, sent %s", q, err, cutStr(got.String(), 400), cutStr(want.String(), 400))
		}
		// the request names the identifiers in order
		m := asked.Load()
		if m == nil {
			s.fail("raw-not-asked", "the query was not sent")
			return
		}
		it, err := m.Item()
		if err != nil || it.K != ref.L || len(it.List) != len(ids) {
			s.fail("raw-request", "call %d %v is sent as %s", q, args, m)
			return
		}
		for j, id := range ids {
			if !isID(it.List[j], id) {
				s.fail("raw-request", "call %d %v is sent as %s", q, args, m)
			}
		}
	}
}
