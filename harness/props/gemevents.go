package props

import (
	"fmt"
	"math/rand"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/ref"
)

// evStore is the model of variables, collection events, reports, links and enables of an equipment.
type evStore struct {
	s      *gemRig
	r      *rand.Rand
	svs    map[gid]*svModel
	dvs    map[gid]*dvModel
	vids   []gid // that exist
	vpool  []gid
	ces    []gid
	cpool  []gid
	rpool  []gid
	known  map[gid]bool
	rpts   map[gid][]gid
	links  map[gid]*evLink
	big    bool // dozens of everything, in long messages
	simple bool // only plainly specified requests
}

type evLink struct {
	rpts    []gid
	enabled bool
}

type dvModel struct {
	prov   *holder
	stored *src
	dv     *gem.DataVariable
}

func (m *dvModel) want() ref.Item {
	if m.prov != nil {
		return m.prov.v.Load().want()
	}
	return m.stored.want()
}

func newEvStore(s *gemRig, nv, nc, nr int) *evStore {
	g := &evStore{s: s, r: s.r, svs: map[gid]*svModel{}, dvs: map[gid]*dvModel{}, known: map[gid]bool{}, rpts: map[gid][]gid{}, links: map[gid]*evLink{}}
	g.vpool, g.cpool, g.rpool = genIDs(s.r, nv+2), genIDs(s.r, nc+1), genIDs(s.r, nr)
	for i := 0; i < nv; i++ {
		g.addVar()
	}
	for i := 0; i < nc; i++ {
		g.addCE()
	}
	return g
}

func (g *evStore) addVar() {
	r := g.r
	id := g.vpool[r.Intn(len(g.vpool))]
	var prov *holder
	if r.Intn(2) == 0 {
		prov = &holder{}
		prov.v.Store(genSrc(r))
	}
	stored := &src{}
	if r.Intn(5) > 0 {
		stored = &src{it: ref.Gen(r, 2, 4), has: true}
	}
	var err error
	fresh := false
	if r.Intn(2) == 0 {
		var opts []gem.StatusVariableOption
		if prov != nil {
			opts = append(opts, gem.WithStatusValueProvider(prov.provide))
		}
		if stored.has {
			opts = append(opts, gem.WithStatusValue(ref.ToAST(stored.it)))
		}
		var sv *gem.StatusVariable
		sv, err = gem.NewStatusVariable(id.goVal(r), "sv", "", opts...)
		if err == nil && g.svs[id] == nil && g.dvs[id] == nil {
			fresh = true
			err = g.s.G.RegisterStatusVariable(sv)
			g.svs[id] = &svModel{id: id, prov: prov, stored: stored, sv: sv}
		}
	} else {
		var opts []gem.DataVariableOption
		if prov != nil {
			opts = append(opts, gem.WithDataValueProvider(prov.provide))
		}
		if stored.has {
			opts = append(opts, gem.WithDataValue(ref.ToAST(stored.it)))
		}
		var dv *gem.DataVariable
		dv, err = gem.NewDataVariable(id.goVal(r), "dv", opts...)
		if err == nil && g.svs[id] == nil && g.dvs[id] == nil {
			fresh = true
			err = g.s.G.RegisterDataVariable(dv)
			g.dvs[id] = &dvModel{prov: prov, stored: stored, dv: dv}
		}
	}
	if err != nil {
		g.s.fail("register", "variable %v: %v", id, err)
	}
	if fresh {
		g.vids = append(g.vids, id)
		g.s.note("variable %v = %s", id, g.value(id))
	}
}

func (g *evStore) addCE() {
	id := g.cpool[g.r.Intn(len(g.cpool))]
	ce, err := gem.NewCollectionEvent(id.goVal(g.r), "ce")
	if err == nil {
		err = g.s.G.RegisterCollectionEvent(ce)
	}
	if g.known[id] != (err != nil) {
		g.s.fail("register", "event %v, already there %v: %v", id, g.known[id], err)
		return
	}
	if !g.known[id] {
		g.known[id] = true
		g.ces = append(g.ces, id)
		g.s.note("event %v", id)
	}
}

func (g *evStore) value(id gid) ref.Item {
	if m := g.svs[id]; m != nil {
		return m.want().Normal()
	}
	return g.dvs[id].want().Normal()
}

// changeVar gives some variable a new value.
func (g *evStore) changeVar() {
	r := g.r
	id := g.vids[r.Intn(len(g.vids))]
	v := genSrc(r)
	plain := &src{it: v.it, has: true}
	if m := g.svs[id]; m != nil {
		switch {
		case m.prov != nil && r.Intn(3) > 0:
			m.prov.v.Store(v)
		case r.Intn(4) == 0:
			m.prov = &holder{}
			m.prov.v.Store(v)
			m.sv.SetValueProvider(m.prov.provide)
		case m.prov != nil:
			m.prov = nil
			m.sv.SetValueProvider(nil)
		default:
			m.stored = plain
			m.sv.SetValue(ref.ToAST(v.it))
		}
	} else {
		m := g.dvs[id]
		switch {
		case m.prov != nil && r.Intn(3) > 0:
			m.prov.v.Store(v)
		case r.Intn(4) == 0:
			m.prov = &holder{}
			m.prov.v.Store(v)
			m.dv.SetValueProvider(m.prov.provide)
		case m.prov != nil:
			m.prov = nil
			m.dv.SetValueProvider(nil)
		default:
			m.stored = plain
			m.dv.SetValue(ref.ToAST(v.it))
		}
	}
	g.s.note("variable %v = %s", id, g.value(id))
}

// reports is what a report on ce holds: nil when the event is not linked or not enabled.
func (g *evStore) reports(ce gid) []gid {
	l := g.links[ce]
	if l == nil || !l.enabled || !g.known[ce] {
		return nil
	}
	return l.rpts
}

// diff compares the reports part of an S6F11/S6F16 (and its CEID) with the model.
func (g *evStore) diff(ce gid, ceItem, reports ref.Item) string {
	if !isID(ceItem, ce) {
		return fmt.Sprintf("names event %s", ceItem)
	}
	want := g.reports(ce)
	if reports.K != ref.L || len(reports.List) != len(want) {
		return fmt.Sprintf("holds %s, linked and enabled are %v", cutStr(reports.String(), 300), want)
	}
	for i, rp := range want {
		e := reports.List[i]
		if e.K != ref.L || len(e.List) != 2 || !isID(e.List[0], rp) || e.List[1].K != ref.L || len(e.List[1].List) != len(g.rpts[rp]) {
			return fmt.Sprintf("report %d of %v is %s, defined as %v with variables %v", i, want, cutStr(e.String(), 300), rp, g.rpts[rp])
		}
		for j, v := range g.rpts[rp] {
			if !ref.Equal(e.List[1].List[j], g.value(v)) {
				return fmt.Sprintf("report %v, variable %d (%v) is %s instead of %s", rp, j, v, cutStr(e.List[1].List[j].String(), 200), cutStr(g.value(v).String(), 200))
			}
		}
	}
	return ""
}

// evEntry is an entry of S2F33 (report: variables) or S2F35 (event: reports).
type evEntry struct {
	id   gid
	refs []gid
	wire ref.Item
	bad  bool
}

func (g *evStore) pick(pool []gid) gid {
	if g.r.Intn(15) == 0 {
		return genID(g.r)
	}
	return pool[g.r.Intn(len(pool))]
}

func (g *evStore) wireEntry(e *evEntry, forms bool) {
	r := g.r
	var refs []ref.Item
	for _, x := range e.refs {
		refs = append(refs, x.wire(r))
	}
	e.wire = ref.Lst(e.id.wire(r), ref.Lst(refs...))
	if forms && r.Intn(25) == 0 {
		e.bad = true
		switch r.Intn(6) {
		case 0:
			e.wire = e.id.wire(r)
		case 1:
			e.wire = ref.Lst(e.id.wire(r))
		case 2:
			e.wire = ref.Lst()
		case 3:
			e.wire = ref.Lst(notID(r), ref.Lst(refs...))
		case 4:
			e.wire = ref.Lst(e.id.wire(r), ref.Lst(append(append([]ref.Item{}, refs...), notID(r))...))
		case 5:
			e.wire = ref.Lst(e.id.wire(r), ref.Uint(ref.U4, 1))
		}
	}
}

// bigDefs, bigLinks and bigEnables are long lists that are mostly acceptable as a whole.
func (g *evStore) bigDefs() (out []evEntry) {
	r := g.r
	for _, i := range r.Perm(len(g.rpool))[:1+r.Intn(len(g.rpool))] {
		e := evEntry{id: g.rpool[i]}
		if g.rpts[e.id] == nil && r.Intn(8) > 0 {
			for k := 1 + r.Intn(6); k > 0; k-- {
				e.refs = append(e.refs, g.vids[r.Intn(len(g.vids))])
			}
		} else if g.rpts[e.id] != nil && r.Intn(3) > 0 {
			continue
		}
		g.wireEntry(&e, false)
		out = append(out, e)
	}
	return
}

func (g *evStore) bigLinks() (out []evEntry) {
	r := g.r
	var have []gid
	for _, id := range g.rpool {
		if g.rpts[id] != nil {
			have = append(have, id)
		}
	}
	for _, i := range r.Perm(len(g.ces))[:1+r.Intn(len(g.ces))] {
		e := evEntry{id: g.ces[i]}
		if l := g.links[e.id]; r.Intn(8) > 0 && (l == nil || len(l.rpts) == 0) && len(have) > 0 {
			for _, k := range r.Perm(len(have))[:1+r.Intn(min(len(have), 20))] {
				e.refs = append(e.refs, have[k])
			}
		} else if r.Intn(3) > 0 {
			continue
		}
		g.wireEntry(&e, false)
		out = append(out, e)
	}
	return
}

func (g *evStore) bigEnables() (out []gid) {
	for _, i := range g.r.Perm(len(g.ces)) {
		if g.links[g.ces[i]] != nil {
			out = append(out, g.ces[i])
		}
	}
	return out[:g.r.Intn(len(out)+1)]
}

// genDefs is a list of report definitions.
func (g *evStore) genDefs(forms bool) []evEntry {
	r := g.r
	var out []evEntry
	if g.big && r.Intn(3) > 0 && len(g.vids) > 0 {
		if out = g.bigDefs(); len(out) > 0 {
			return out
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		e := evEntry{id: g.pick(g.rpool)}
		if r.Intn(3) > 0 { // prefer what is possible
			for t := 0; t < 6 && g.rpts[e.id] != nil; t++ {
				e.id = g.pick(g.rpool)
			}
		}
		if r.Intn(4) > 0 {
			for k := 1 + r.Intn(4); k > 0; k-- {
				pool := g.vids
				if r.Intn(25) == 0 {
					pool = g.vpool
				}
				if len(pool) > 0 {
					e.refs = append(e.refs, g.pick(pool))
				}
			}
			if r.Intn(60) == 0 {
				for k := 0; k < 80; k++ {
					e.refs = append(e.refs, g.vids[r.Intn(len(g.vids))])
				}
			}
		}
		g.wireEntry(&e, forms)
		out = append(out, e)
	}
	return out
}

// genLinks is a list of links.
func (g *evStore) genLinks(forms bool) []evEntry {
	r := g.r
	var out []evEntry
	if g.big && r.Intn(3) > 0 && len(g.ces) > 0 {
		if out = g.bigLinks(); len(out) > 0 {
			return out
		}
	}
	have := make([]gid, 0)
	for _, id := range g.rpool {
		if g.rpts[id] != nil {
			have = append(have, id)
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		e := evEntry{id: g.pick(g.ces)}
		if r.Intn(30) == 0 {
			e.id = g.pick(g.cpool)
		}
		if r.Intn(5) > 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				pool := have
				if len(pool) == 0 || r.Intn(25) == 0 {
					pool = g.rpool
				}
				x := g.pick(pool)
				for t := 0; t < 6 && g.links[e.id] != nil && hasGid(g.links[e.id].rpts, x); t++ {
					x = g.pick(pool)
				}
				e.refs = append(e.refs, x)
			}
		}
		g.wireEntry(&e, forms)
		out = append(out, e)
	}
	return out
}

func hasGid(l []gid, x gid) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (g *evStore) varExists(id gid) bool { return g.svs[id] != nil || g.dvs[id] != nil }

// defCodes is the set of allowed codes; -1 in it: unspecified, follow the answer.
func (g *evStore) defCodes(l []evEntry) map[int]bool {
	out := map[int]bool{}
	defined, touched := map[gid]bool{}, map[gid]bool{}
	for _, e := range l {
		if e.bad {
			out[2] = true
			continue
		}
		if touched[e.id] && !(defined[e.id] && len(e.refs) > 0) {
			out[-1] = true // deletion and definition of one report in one message
		}
		touched[e.id] = true
		if len(e.refs) == 0 {
			if g.rpts[e.id] == nil {
				out[-1] = true
			}
			continue
		}
		if g.rpts[e.id] != nil || defined[e.id] {
			out[3] = true
		}
		defined[e.id] = true
		for _, v := range e.refs {
			if !g.varExists(v) {
				out[4] = true
			}
		}
	}
	if len(out) == 0 {
		out[0] = true
	}
	return out
}

func (g *evStore) applyDefs(l []evEntry) {
	for _, e := range l {
		if len(e.refs) > 0 {
			g.rpts[e.id] = e.refs
			continue
		}
		delete(g.rpts, e.id)
		for ce, k := range g.links {
			var left []gid
			for _, x := range k.rpts {
				if x != e.id {
					left = append(left, x)
				}
			}
			k.rpts = left
			if len(left) == 0 {
				delete(g.links, ce)
			}
		}
	}
}

func (g *evStore) linkCodes(l []evEntry) map[int]bool {
	out := map[int]bool{}
	type pair struct{ a, b gid }
	seen, unlinked, named := map[pair]bool{}, map[gid]bool{}, map[gid]bool{}
	for _, e := range l {
		if e.bad {
			out[2] = true
			continue
		}
		if named[e.id] && (len(e.refs) == 0 || unlinked[e.id]) {
			out[-1] = true // links and unlinks of one event in one message
		}
		named[e.id] = true
		if len(e.refs) == 0 {
			unlinked[e.id] = true
		}
		if !g.known[e.id] {
			out[4] = true
		}
		for _, x := range e.refs {
			if g.rpts[x] == nil {
				out[5] = true
			}
			if seen[pair{e.id, x}] || g.links[e.id] != nil && hasGid(g.links[e.id].rpts, x) {
				out[3] = true
			}
			seen[pair{e.id, x}] = true
		}
	}
	if len(out) == 0 {
		out[0] = true
	}
	return out
}

func (g *evStore) applyLinks(l []evEntry) {
	for _, e := range l {
		if len(e.refs) == 0 {
			delete(g.links, e.id)
			continue
		}
		if g.links[e.id] == nil {
			g.links[e.id] = &evLink{enabled: true}
		}
		g.links[e.id].rpts = append(g.links[e.id].rpts, e.refs...)
	}
}

func (g *evStore) enableCodes(ces []gid) map[int]bool {
	out := map[int]bool{}
	for _, c := range ces {
		if !g.known[c] {
			out[1] = true
		} else if g.links[c] == nil {
			out[-1] = true
		}
	}
	if len(out) == 0 {
		out[0] = true
	}
	return out
}

func (g *evStore) applyEnable(on bool, ces []gid) {
	if len(ces) == 0 {
		for _, k := range g.links {
			k.enabled = on
		}
	}
	for _, c := range ces {
		if g.links[c] != nil {
			g.links[c].enabled = on
		}
	}
}

// took checks the code and moves the model on; false: stop.
func (g *evStore) took(what string, code int, want map[int]bool, apply func()) bool {
	ok := want[code] || want[-1] && (code == 0 && len(want) == 1 || code > 0)
	if !ok {
		delete(want, -1)
		g.s.fail("code", "%s is answered with %d, expected one of %v", what, code, want)
		return false
	}
	if code == 0 {
		apply()
		g.s.c.Count("accepted changes", 1)
	} else {
		g.s.c.Count(fmt.Sprintf("refused: %s code %d", what[:5], code), 1)
	}
	return true
}

func entriesItem(l []evEntry) ref.Item {
	out := ref.Item{K: ref.L}
	for _, e := range l {
		out.List = append(out.List, e.wire)
	}
	return out
}

// dataID is some DATAID item.
func dataID(r *rand.Rand) ref.Item {
	return []ref.Item{ref.Uint(ref.U1, 0), ref.Uint(ref.U4, r.Uint64()>>33), ref.Uint(ref.U2, 7), ref.Int(ref.I4, 1), ref.Asc("d"), ref.Uint(ref.U8, 1<<63)}[r.Intn(6)]
}

func (g *evStore) anyArgs(ids []gid) []any {
	var out []any
	for _, id := range ids {
		out = append(out, id.goVal(g.r))
	}
	return out
}

// change sends one random change of the definitions, through h when that is given.
func (g *evStore) change(h *gem.GemHandler, forms bool) {
	r, s := g.r, g.s
	var err error
	code := 0
	ask := func(st, fn int, body ref.Item) bool {
		it, ok := s.ask(st, fn, body)
		code = ack1(it)
		return ok
	}
	hostOK := func() bool {
		if err != nil {
			s.fail("host-call", "%v", err)
			return false
		}
		return true
	}
	switch k := r.Intn(20); {
	case k < 8:
		l := g.genDefs(forms && h == nil)
		if r.Intn(40) == 0 {
			l = nil
		}
		body := ref.Lst(dataID(r), entriesItem(l))
		if forms && h == nil && len(l) == 0 && r.Intn(2) == 0 {
			body = ref.Lst()
		}
		what := "S2F33 " + cutStr(body.String(), 400)
		s.note("%s", what)
		s.c.Case(what, true)
		want := g.defCodes(l)
		s.c.Max("reports_in_one_definition", len(l))
		if h != nil {
			var d []gem.ReportDefinitionRequest
			for _, e := range l {
				d = append(d, gem.ReportDefinitionRequest{ReportID: e.id.goVal(r), VIDs: g.anyArgs(e.refs)})
			}
			code, err = h.DefineReports(d...)
			if !hostOK() {
				return
			}
		} else if !ask(2, 33, body) {
			return
		}
		g.took(what, code, want, func() {
			if len(l) == 0 {
				g.rpts, g.links = map[gid][]gid{}, map[gid]*evLink{}
				s.c.Count("all reports deleted", 1)
			}
			g.applyDefs(l)
		})
	case k < 15:
		if len(g.ces) == 0 {
			return
		}
		l := g.genLinks(forms && h == nil)
		if r.Intn(40) == 0 {
			l = nil
		}
		body := ref.Lst(dataID(r), entriesItem(l))
		what := "S2F35 " + cutStr(body.String(), 400)
		s.note("%s", what)
		s.c.Case(what, true)
		want := g.linkCodes(l)
		s.c.Max("events_in_one_link", len(l))
		if h != nil {
			var d []gem.EventReportLinkRequest
			for _, e := range l {
				d = append(d, gem.EventReportLinkRequest{CEID: e.id.goVal(r), ReportIDs: g.anyArgs(e.refs)})
			}
			if code, err = h.LinkEventReports(d...); !hostOK() {
				return
			}
		} else if !ask(2, 35, body) {
			return
		}
		g.took(what, code, want, func() { g.applyLinks(l) })
	case k < 19:
		on := r.Intn(3) > 0
		var ces []gid
		for n := r.Intn(4); n > 0 && len(g.ces) > 0; n-- {
			c := g.pick(g.ces)
			if r.Intn(4) > 0 {
				for t := 0; t < 6 && g.links[c] == nil; t++ {
					c = g.pick(g.ces)
				}
			}
			ces = append(ces, c)
		}
		if g.big && r.Intn(3) > 0 {
			ces = g.bigEnables()
		}
		s.c.Max("events_in_one_enable", len(ces))
		ceed := ref.Bool(on)
		if r.Intn(4) == 0 {
			ceed = ref.Bin(0)
			if on {
				ceed = ref.Bin(byte(1 + r.Intn(255)))
			}
		}
		w := ref.Item{K: ref.L}
		for _, c := range ces {
			w.List = append(w.List, c.wire(r))
		}
		body := ref.Lst(ceed, w)
		want := g.enableCodes(ces)
		if forms && h == nil && r.Intn(20) == 0 {
			want = map[int]bool{1: true}
			switch r.Intn(5) {
			case 0:
				body = ref.Lst(ceed)
			case 1:
				body = ref.Lst(ceed, ref.Uint(ref.U4, 1))
			case 2:
				body = ref.Lst(ref.Lst(), w)
			case 3:
				body = ref.Lst(ceed, ref.Lst(append(append([]ref.Item{}, w.List...), notID(r))...))
			case 4:
				body = ceed
			}
		}
		what := "S2F37 " + cutStr(body.String(), 400)
		s.note("%s", what)
		s.c.Case(what, true)
		if h != nil {
			if code, err = h.EnableEventReports(on, g.anyArgs(ces)...); !hostOK() {
				return
			}
		} else if !ask(2, 37, body) {
			return
		}
		g.took(what, code, want, func() { g.applyEnable(on, ces) })
	default:
		if !forms || h != nil {
			return
		}
		fn := 33 + 2*r.Intn(2)
		body := []ref.Item{{}, ref.Uint(ref.U4, 1), ref.Lst(dataID(r)), ref.Lst(dataID(r), ref.Asc("x")), ref.Asc("")}[r.Intn(5)]
		what := fmt.Sprintf("S2F%d %s", fn, body)
		s.note("%s", what)
		s.c.Case(what, true)
		if ask(2, fn, body) {
			g.took(what, code, map[int]bool{2: true}, func() {})
		}
	}
}

// look queries every event through S6F15 and compares.
func (g *evStore) look(h *gem.GemHandler) {
	r, s := g.r, g.s
	ids := append([]gid(nil), g.ces...)
	if r.Intn(4) == 0 {
		ids = append(ids, genID(r))
	}
	if g.big {
		r.Shuffle(len(ids), func(i, k int) { ids[i], ids[k] = ids[k], ids[i] })
		ids = ids[:min(len(ids), 12)]
	}
	for _, ce := range ids {
		if s.isBad() {
			return
		}
		s.c.Count("reports compared", 1)
		if len(g.reports(ce)) > 0 {
			s.c.Count("reports compared, not empty", 1)
		}
		if h != nil {
			rep, err := h.RequestCollectionEventReport(ce.goVal(r))
			if err != nil {
				s.fail("s6f15", "RequestCollectionEventReport(%v): %v", ce, err)
				return
			}
			id, it := reportItem(rep)
			if d := g.diff(ce, id, it); d != "" {
				s.fail("s6f16", "the report of event %v requested by the host %s", ce, d)
				return
			}
			continue
		}
		body := ce.wire(r)
		if r.Intn(6) == 0 {
			body = ref.Lst(body)
		}
		it, ok := s.ask(6, 15, body)
		if !ok {
			return
		}
		if it.K != ref.L || len(it.List) != 3 {
			s.fail("s6f16", "S6F15 for %v is answered with %s", ce, cutStr(it.String(), 300))
			return
		}
		if d := g.diff(ce, it.List[1], it.List[2]); d != "" {
			s.fail("s6f16", "S6F16 for event %v %s", ce, d)
			return
		}
	}
}

// reportItem turns a decoded report back into its items.
func reportItem(rep gem.EventReport) (id, reports ref.Item) {
	rawItem := func(v any) ref.Item {
		switch x := v.(type) {
		case string:
			return ref.Asc(x)
		case uint64:
			return ref.Uint(ref.U8, x)
		}
		return ref.Item{K: ref.BOOL}
	}
	reports = ref.Item{K: ref.L}
	for _, x := range rep.Reports {
		vals := ref.Item{K: ref.L}
		for _, n := range x.Values {
			vals.List = append(vals.List, nodeItem(n))
		}
		reports.List = append(reports.List, ref.Lst(rawItem(x.RPTID), vals))
	}
	return rawItem(rep.CEID), reports
}

func nodeItem(n ast.ItemNode) ref.Item {
	if n == nil {
		return ref.Asc("nil")
	}
	it, err := ref.FromAST(n)
	if err != nil {
		return ref.Asc("unreadable: " + err.Error())
	}
	return it
}
