package props

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P25", Race: true, Run: p25,
		Rule: "one case is one update (S2F15, host call or local) followed by a query of every constant, compared with the constant-store model; non-trivial when the list is not empty; distinct by list",
		Assume: []string{"a list with several faults may be refused with the code of any of them",
			"updater and validator decide by the value alone; an updater that refuses a value has not changed anything",
			"an updater may be handed the previous value again to undo a list that another updater refused",
			"an entry with more than two items is not generated"}})
}

// ecPart is one constant of the store model.
type ecPart struct {
	id                           gid
	validated, updated, provided bool
	ec                           *gem.EquipmentConstant
	want                         ref.Item
	mu                           sync.Mutex
	own                          ref.Item // what the application behind the constant holds
	seen                         []ref.Item
	checked                      int
}

func itemHash(it ref.Item, salt string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(salt + it.Normal().String()))
	return h.Sum32()
}

func valOK(it ref.Item) bool { return itemHash(it, "v")%6 != 0 }
func updOK(it ref.Item) bool { return itemHash(it, "u")%6 != 0 }

// current is what the constant says its value is.
func (m *ecPart) current() ast.ItemNode {
	v, _ := m.ec.Value()
	return v
}

func (m *ecPart) takes(it ref.Item) bool {
	return (!m.validated || valOK(it)) && (!m.updated || updOK(it))
}

// genEcValue is a value of up to a few items; ok: one that nobody refuses.
func genEcValue(r *rand.Rand, ok bool) ref.Item {
	for {
		it := ref.Gen(r, 2, 4).Normal()
		if !ok || valOK(it) && updOK(it) {
			return it
		}
	}
}

type p25Store struct {
	s  *gemRig
	r  *rand.Rand
	ms []*ecPart
}

func (g *p25Store) add(id gid) {
	r := g.r
	m := &ecPart{id: id, validated: r.Intn(2) == 0, updated: r.Intn(2) == 0, provided: r.Intn(3) == 0}
	m.want = genEcValue(r, true)
	if m.validated && !m.updated && !m.provided && r.Intn(2) == 0 {
		// a default that the validator would not take
		for t := 0; t < 40 && valOK(m.want); t++ {
			m.want = genEcValue(r, false)
		}
	}
	m.own = m.want
	var opts []gem.EquipmentConstantOption
	if m.validated {
		opts = append(opts, gem.WithEquipmentConstantValidator(func(n ast.ItemNode) error {
			it, err := ref.FromAST(n)
			m.mu.Lock()
			m.checked++
			m.mu.Unlock()
			if err != nil || !valOK(it) {
				return fmt.Errorf("out of range: %s, instead of %s", nodeStr(m.current()), it)
			}
			return nil
		}))
	}
	if m.updated {
		opts = append(opts, gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
			it, err := ref.FromAST(n)
			m.mu.Lock()
			defer m.mu.Unlock()
			m.seen = append(m.seen, it.Normal())
			m.ec.ID()
			if !m.provided {
				m.ec.Value()
			}
			if err != nil || !updOK(it) {
				return errors.New("device refuses")
			}
			m.own = it.Normal()
			return nil
		}))
	}
	if m.provided {
		opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) {
			m.mu.Lock()
			defer m.mu.Unlock()
			return ref.ToAST(m.own), nil
		}))
	}
	ec, err := gem.NewEquipmentConstant(id.goVal(r), "c", ref.ToAST(m.want), opts...)
	if err == nil {
		err = g.s.G.RegisterEquipmentConstant(ec)
	}
	if err != nil {
		g.s.fail("register", "constant %v: %v", id, err)
		return
	}
	m.ec = ec
	g.s.note("constant %v: validator %v updater %v provider %v = %s", id, m.validated, m.updated, m.provided, m.want)
	g.ms = append(g.ms, m)
}

func (g *p25Store) find(id gid) *ecPart {
	for _, m := range g.ms {
		if m.id == id {
			return m
		}
	}
	return nil
}

type ecUpd struct {
	id   gid
	v    ref.Item
	wire ref.Item
	bad  bool
}

// genList is an update list: clean mostly, or with faults at some places.
func (g *p25Store) genList(n int, wireForms bool) []ecUpd {
	r := g.r
	faulty := r.Intn(2) == 0
	clean := !faulty
	var l []ecUpd
	for i := 0; i < n; i++ {
		m := g.ms[r.Intn(len(g.ms))]
		u := ecUpd{id: m.id, v: genEcValue(r, true)}
		if r.Intn(10) == 0 { // no change, but every rule applies
			u.v = m.want
		}
		l = append(l, u)
	}
	if !clean && n > 0 {
		faults := 1
		if r.Intn(4) == 0 {
			faults = 1 + r.Intn(3)
		}
		for f := 0; f < faults; f++ {
			u := &l[r.Intn(n)]
			switch k := r.Intn(8); {
			case k == 0:
				id := genID(r)
				if g.find(id) == nil {
					u.id = id
				}
			case k == 1 && wireForms:
				u.bad = true
			default: // a value that somebody may refuse
				for t := 0; t < 40; t++ {
					u.v = genEcValue(r, false)
					if m := g.find(u.id); m != nil && !m.takes(u.v) {
						break
					}
				}
			}
		}
	}
	for i := range l {
		u := &l[i]
		u.wire = ref.Lst(u.id.wire(r), u.v)
		if u.bad {
			switch r.Intn(5) {
			case 0:
				u.wire = ref.Lst(u.id.wire(r))
			case 1:
				u.wire = ref.Lst()
			case 2:
				u.wire = u.id.wire(r)
			case 3:
				u.wire = ref.Lst(notID(r), u.v)
			case 4:
				u.wire = ref.Asc("ab")
			}
		}
	}
	return l
}

// codes is the set of codes the list may be answered with.
func (g *p25Store) codes(l []ecUpd) map[int]bool {
	out := map[int]bool{}
	for _, u := range l {
		if u.bad {
			out[2] = true
			continue
		}
		m := g.find(u.id)
		if m == nil {
			out[1] = true
		} else if !m.takes(u.v) {
			out[3] = true
		}
	}
	if len(out) == 0 {
		out[0] = true
	}
	return out
}

func (g *p25Store) begin() {
	for _, m := range g.ms {
		m.mu.Lock()
		m.seen, m.checked = nil, 0
		m.mu.Unlock()
	}
}

// settle moves the model on and compares everything visible with it.
func (g *p25Store) settle(l []ecUpd, code int, what string, h *gem.GemHandler) {
	s := g.s
	want := g.codes(l)
	if !want[code] {
		s.fail("code", "%s is answered with %d, expected %v", what, code, want)
		return
	}
	seen := map[*ecPart][]ref.Item{}
	if code == 0 {
		for _, u := range l {
			m := g.find(u.id)
			seen[m] = append(seen[m], u.v.Normal())
			if m.updated || !m.provided {
				m.want = u.v.Normal()
			}
		}
		s.c.Count("accepted lists", 1)
	} else {
		s.c.Count(fmt.Sprintf("refused lists, code %d", code), 1)
	}
	for _, m := range g.ms {
		m.mu.Lock()
		got, own := m.seen, m.own
		m.mu.Unlock()
		if m.updated && !ref.Equal(own, m.want) {
			s.fail("application-value", "%s answered %d: the application behind constant %v was left with %s instead of %s", what, code, m.id, own, m.want)
			return
		}
		if !m.updated {
			continue
		}
		if code == 0 {
			if len(got) != len(seen[m]) {
				s.fail("updater-calls", "%s accepted: the updater of %v was called %d times instead of %d", what, m.id, len(got), len(seen[m]))
				return
			}
			for i := range got {
				if !ref.Equal(got[i], seen[m][i]) {
					s.fail("updater-values", "%s accepted: call %d of the updater of %v got %s instead of %s", what, i, m.id, got[i], seen[m][i])
					return
				}
			}
			continue
		}
		if len(got) > 0 && !want[3] {
			s.fail("updater-called", "%s refused with %d: the updater of %v was called with %s", what, code, m.id, got[0])
			return
		}
		refusedByValidator := false
		for _, u := range l {
			if x := g.find(u.id); !u.bad && x != nil && x.validated && !valOK(u.v) {
				refusedByValidator = true
			}
		}
		if len(got) > 0 && (refusedByValidator || want[1] || want[2]) {
			s.fail("updater-called", "%s refused with %d: the updater of %v was called with %s though the list was refused before", what, code, m.id, got[0])
			return
		}
	}
	// what is seen from outside
	var ids []ref.Item
	for _, m := range g.ms {
		ids = append(ids, m.id.wire(g.r))
	}
	if g.r.Intn(4) == 0 {
		ids = nil
	}
	if h != nil {
		var args []any
		for _, m := range g.ms {
			args = append(args, m.id.goVal(g.r))
		}
		vals, err := h.RequestEquipmentConstants(args...)
		if err != nil || len(vals) != len(g.ms) {
			s.fail("query", "after %s: RequestEquipmentConstants gives %d values, %v", what, len(vals), err)
			return
		}
		for i, m := range g.ms {
			if !sameItem(vals[i].Value, m.want) {
				s.fail("value", "after %s answered %d: constant %v is %s instead of %s", what, code, m.id, nodeStr(vals[i].Value), m.want)
				return
			}
		}
		return
	}
	it, ok := s.ask(2, 13, ref.Lst(ids...))
	if !ok {
		return
	}
	if it.K != ref.L || len(it.List) != len(g.ms) {
		s.fail("query", "after %s: %d constants are queried as %s", what, len(g.ms), cutStr(it.String(), 300))
		return
	}
	for i, m := range g.ms {
		s.c.Count("constant values compared", 1)
		if !ref.Equal(it.List[i], m.want) {
			s.fail("value", "after %s answered %d: constant %v is %s instead of %s", what, code, m.id, cutStr(it.List[i].String(), 300), cutStr(m.want.String(), 300))
			return
		}
	}
}

func describeUpd(l []ecUpd) string {
	var w []ref.Item
	for _, u := range l {
		w = append(w, u.wire)
	}
	return cutStr(ref.Lst(w...).String(), 400)
}

func (g *p25Store) listSize() int {
	if g.r.Intn(12) == 0 {
		return 20 + g.r.Intn(100)
	}
	return g.r.Intn(7)
}

func (g *p25Store) wireStep() {
	s, r := g.s, g.r
	g.begin()
	if r.Intn(20) == 0 { // no list at all
		body := ref.Uint(ref.U4, 7)
		if r.Intn(2) == 0 {
			body = ref.Item{}
		}
		s.note("S2F15 %s", body)
		it, ok := s.ask(2, 15, body)
		if ok && ack1(it) != 2 {
			s.fail("no-list", "S2F15 %s is answered with %s", body, it)
		}
		if ok {
			g.settle([]ecUpd{{bad: true}}, 2, "S2F15 without a list", nil)
		}
		return
	}
	l := g.genList(g.listSize(), true)
	what := "S2F15 " + describeUpd(l)
	s.note("%s", what)
	s.c.Case(what, len(l) > 0)
	var w []ref.Item
	for _, u := range l {
		w = append(w, u.wire)
	}
	it, ok := s.ask(2, 15, ref.Lst(w...))
	if ok {
		g.settle(l, ack1(it), what, nil)
	}
}

func (g *p25Store) localStep(h *gem.GemHandler) {
	g.begin()
	m := g.ms[g.r.Intn(len(g.ms))]
	u := ecUpd{id: m.id, v: genEcValue(g.r, g.r.Intn(2) == 0)}
	u.wire = ref.Lst(u.v)
	what := fmt.Sprintf("ApplyValue on %v of %s", m.id, u.v)
	g.s.note("%s", what)
	g.s.c.Case(what, true)
	err := m.ec.ApplyValue(ref.ToAST(u.v))
	code := 0
	if err != nil {
		code = 3
	}
	g.settle([]ecUpd{u}, code, what, h)
}

func (g *p25Store) hostStep(h *gem.GemHandler) {
	g.begin()
	l := g.genList(g.listSize(), false)
	var ups []gem.EquipmentConstantUpdate
	for _, u := range l {
		ups = append(ups, gem.EquipmentConstantUpdate{ID: u.id.goVal(g.r), Value: ref.ToAST(u.v)})
	}
	what := "host update " + describeUpd(l)
	badArg := len(l) > 0 && g.r.Intn(15) == 0
	if badArg {
		k := g.r.Intn(len(ups))
		if g.r.Intn(2) == 0 {
			ups[k].ID = notGoID(g.r)
		} else {
			ups[k].Value = nil
		}
		what += " with a bad entry"
	}
	g.s.note("%s", what)
	g.s.c.Case(what, len(l) > 0)
	code, err := h.SendEquipmentConstantValues(ups)
	if badArg {
		if err == nil {
			g.s.fail("bad-arg", "%s gives no error", what)
		}
		return
	}
	if err != nil {
		g.s.fail("host-call", "%s: %v", what, err)
		return
	}
	g.settle(l, code, what, h)
}

func p25(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(40, 320), func(label string, i int) {
		s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := &p25Store{s: s, r: s.r}
		for _, id := range genIDs(s.r, 1+s.r.Intn(7)) {
			g.add(id)
		}
		for k := 0; k < c.N(150, 500) && !s.isBad(); k++ {
			if s.r.Intn(6) == 0 {
				g.localStep(nil)
			} else {
				g.wireStep()
			}
		}
		if i == 0 {
			c.Sample(map[string]any{"case": label, "last": s.hist[len(s.hist)-2:]})
		}
	})
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) {
		s := newGemPair(c, label, nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := &p25Store{s: s.gemRig, r: s.r}
		for _, id := range genIDs(s.r, 1+s.r.Intn(7)) {
			g.add(id)
		}
		for k := 0; k < c.N(100, 400) && !s.isBad(); k++ {
			if s.r.Intn(6) == 0 {
				g.localStep(s.H)
			} else {
				g.hostStep(s.H)
			}
		}
	})
	jobs = addJobs(jobs, "concurrent", c.N(8, 48), func(label string, i int) { p25Concurrent(c, label, i) })
	jobs = addJobs(jobs, "raw-equipment", c.N(4, 20), func(label string, i int) { p25Raw(c, label, i) })
	gemJobs(c, 16, jobs)
}

// p25Concurrent lets the application count one constant up while the host counts others up and
// queries all: no value may go back, none may appear that was not written, and a list is seen whole.
func p25Concurrent(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, "equipment passive", nil)
	if s == nil {
		return
	}
	defer s.close()
	if !s.comm() {
		return
	}
	var ecs []*gem.EquipmentConstant
	for k := 1; k <= 4; k++ {
		ec, err := gem.NewEquipmentConstant(k, "c", ast.NewUintNode(4, 0))
		if err == nil {
			err = s.G.RegisterEquipmentConstant(ec)
		}
		if err != nil {
			s.fail("register", "%v", err)
			return
		}
		ecs = append(ecs, ec)
	}
	var stop atomic.Bool
	var wrote atomic.Uint64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for v := uint64(1); !stop.Load(); v++ {
			wrote.Store(v)
			ecs[3].ApplyValue(ast.NewUintNode(4, v))
		}
	}()
	go func() { // the registry grows meanwhile
		defer wg.Done()
		for k := 100; !stop.Load() && k < 400; k++ {
			ec, err := gem.NewEquipmentConstant(k, "c", ast.NewUintNode(4, 0))
			if err == nil {
				err = s.G.RegisterEquipmentConstant(ec)
			}
			if err != nil {
				s.fail("register", "%v", err)
			}
		}
	}()
	defer wg.Wait()
	defer stop.Store(true)
	last := uint64(0)
	for n := uint64(1); n <= uint64(c.N(150, 800)) && !s.isBad(); n++ {
		e := func(id, v uint64) ref.Item { return ref.Lst(ref.Uint(ref.U4, id), ref.Uint(ref.U4, v)) }
		it, ok := s.ask(2, 15, ref.Lst(e(1, n), e(2, n), e(3, n)))
		if !ok {
			return
		}
		if ack1(it) != 0 {
			s.fail("concurrent-code", "a valid list is answered with %s", it)
			return
		}
		low := wrote.Load()
		it, ok = s.ask(2, 13, ref.Lst(ref.Uint(ref.U4, 4), ref.Uint(ref.U4, 1), ref.Uint(ref.U4, 2), ref.Uint(ref.U4, 3)))
		high := wrote.Load()
		if !ok {
			return
		}
		c.Case(fmt.Sprint("concurrent", i, n), true)
		if it.K != ref.L || len(it.List) != 4 {
			s.fail("concurrent-query", "answered %s", it)
			return
		}
		for k := 1; k < 4; k++ {
			if !ref.Equal(it.List[k], ref.Uint(ref.U4, n)) {
				s.fail("concurrent-value", "after all were set to %d the query shows %s", n, it)
			}
		}
		v := it.List[0]
		if v.K != ref.U4 || len(v.Words) != 1 || v.Words[0] < last || v.Words[0]+1 < low || v.Words[0] > high {
			s.fail("concurrent-local", "a constant counted up (last seen %d, %d..%d during the query) shows %s", last, low, high, v)
			return
		}
		last = v.Words[0]
	}
	s.c.Max("values written during the queries", int(wrote.Load()))
}

// p25Raw has a raw equipment answer the host's updates.
func p25Raw(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply, asked atomic.Pointer[ref.Item]
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 2 && m.Function() == 15 && m.W() {
			it, _ := m.Item()
			asked.Store(&it)
			p.Send(ref.DataMsg(m.Session, 2, 16, false, m.Sys, *reply.Load()))
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(150, 600) && !s.isBad(); k++ {
		code := r.Intn(256)
		rep := ref.Bin(byte(code))
		wrong := r.Intn(6) == 0
		if wrong {
			rep = []ref.Item{ref.Lst(), {}, ref.Asc("x"), {K: ref.B}, ref.Lst(ref.Lst())}[r.Intn(5)]
		}
		reply.Store(&rep)
		asked.Store(nil)
		var ups []gem.EquipmentConstantUpdate
		want := ref.Item{K: ref.L}
		ids := genIDs(r, 1+r.Intn(5))
		if r.Intn(4) == 0 {
			ids = append(ids, ids[0])
		}
		for _, id := range ids {
			v := ref.Gen(r, 2, 4)
			ups = append(ups, gem.EquipmentConstantUpdate{ID: id.goVal(r), Value: ref.ToAST(v)})
			want.List = append(want.List, ref.Lst(id.wire(r), v))
		}
		s.note("update %s answered %s", want, rep)
		c.Case(fmt.Sprint("raw ", want), true)
		got, err := s.G.SendEquipmentConstantValues(ups)
		if wrong && err == nil || !wrong && (err != nil || got != code) {
			s.fail("raw-code", "an answer %s gives %d, %v", rep, got, err)
			return
		}
		it := asked.Load()
		if it == nil || it.K != ref.L || len(it.List) != len(ids) {
			s.fail("raw-sent", "%s is sent as %v", want, it)
			return
		}
		for j, id := range ids {
			x := it.List[j]
			if x.K != ref.L || len(x.List) != 2 || !isID(x.List[0], id) || !ref.Equal(x.List[1], want.List[j].List[1].Normal()) {
				s.fail("raw-sent", "%s is sent as %s", want.List[j], x)
				return
			}
		}
	}
}
