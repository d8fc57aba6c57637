package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P09", Run: p09,
		Rule:   "generated templates (all item formats with variables, list variables, nested ellipses) filled at once, in every seeded partition and with every small repetition count, compared with an independent template expander; non-trivial when the template has at least two variables or an ellipsis; distinct by template and assignment",
		Assume: []string{"a name given to an ellipsis that stays unfilled may be \"...\" or \"...[k]\" in order of appearance", "variables are named after ellipses have been filled (as documented), so partitions are taken over variables that exist at that point"}})
}

// tpl is the harness's own template tree.
type tpl struct {
	kind   byte // 'l' list, 's' scalar item, 'a' ASCII variable, 'c' constant item, 'v' list variable, 'e' ellipsis
	kids   []*tpl
	k      ref.Kind
	slots  []string // for 's': "" or a variable name
	words  []uint64 // for 's': values where slots are ""
	name   string   // for 'a', 'v', 'e'
	lo, hi int      // for 'a'
	item   ref.Item // for 'c', and what fills a 'v' or 'a'
}

type tplGen struct {
	ell    bool
	nEll   int
	nVar   int
	names  []string
	budget int
}

func (g *tplGen) name(r *rand.Rand) string {
	g.nVar++
	base := []string{"v", "Var_", "_x", "aB"}[r.Intn(4)] + fmt.Sprint(g.nVar)
	if w := nearKeywords[r.Intn(len(nearKeywords))]; r.Intn(12) == 0 && !strings.Contains(" "+strings.Join(g.names, " ")+" ", " "+w+" ") {
		g.names = append(g.names, w)
		base = w
	}
	if r.Intn(10) == 0 {
		base += fmt.Sprintf("[%d]", r.Intn(5))
	}
	return base
}

func genTpl(r *rand.Rand, g *tplGen, depth int) *tpl {
	if depth == 0 || r.Intn(3) == 0 && depth < 3 {
		return genLeaf(r, g)
	}
	t := &tpl{kind: 'l'}
	n := r.Intn(5)
	hasEll := false
	for i := 0; i < n; i++ {
		switch x := r.Intn(10); {
		case x < 2 && g.ell && i > 0 && !hasEll && g.nEll < 4:
			t.kids = append(t.kids, &tpl{kind: 'e', name: fmt.Sprintf("...[%d]", g.nEll)})
			g.nEll++
			hasEll = true
		case x < 3:
			t.kids = append(t.kids, &tpl{kind: 'v', name: g.name(r)})
		default:
			t.kids = append(t.kids, genTpl(r, g, depth-1))
		}
	}
	return t
}

var varKinds = []ref.Kind{ref.B, ref.BOOL, ref.I1, ref.I2, ref.I4, ref.I8, ref.U1, ref.U2, ref.U4, ref.U8, ref.F4, ref.F8}

func genLeaf(r *rand.Rand, g *tplGen) *tpl {
	switch r.Intn(6) {
	case 0:
		return &tpl{kind: 'c', item: ref.Gen(r, 1, 3)}
	case 1:
		lo := r.Intn(4)
		if r.Intn(8) == 0 {
			lo = []int{255, 256, 300}[r.Intn(3)]
			if r.Intn(16) == 0 {
				lo = 70000
			}
		}
		hi := -1
		if r.Intn(2) == 0 {
			hi = lo + r.Intn(4)*r.Intn(2)
		}
		return &tpl{kind: 'a', name: g.name(r), lo: lo, hi: hi}
	}
	t := &tpl{kind: 's', k: varKinds[r.Intn(len(varKinds))]}
	for i := r.Intn(5); i >= 0; i-- {
		if r.Intn(2) == 0 {
			t.slots = append(t.slots, g.name(r))
			t.words = append(t.words, 0)
		} else {
			t.slots = append(t.slots, "")
			t.words = append(t.words, finiteWord(r, t.k))
		}
	}
	return t
}

func finiteWord(r *rand.Rand, k ref.Kind) uint64 {
	for {
		w := ref.GenWord(r, k)
		it := ref.Item{K: k, Words: []uint64{w}}
		if !it.NonFinite() {
			if k == ref.BOOL && w > 1 {
				w = 1
			}
			return w
		}
	}
}

// goVal turns a wire word into a factory argument.
func goVal(k ref.Kind, w uint64) interface{} {
	it := ref.Item{K: k, Words: []uint64{w}}
	switch {
	case k == ref.B:
		return int(w)
	case k == ref.BOOL:
		return w != 0
	case it.IsInt():
		return it.SignedAt(0)
	case it.IsUint():
		return w
	}
	return it.FloatAt(0)
}

// build makes the AST item through the factories. Top level variables ('v', 'e') appear as strings.
func (t *tpl) arg() interface{} {
	switch t.kind {
	case 'v', 'e':
		return t.name
	}
	return t.build()
}

func (t *tpl) build() ast.ItemNode {
	switch t.kind {
	case 'l':
		var a []interface{}
		for _, k := range t.kids {
			a = append(a, k.arg())
		}
		return ast.NewListNode(a...)
	case 'c':
		return ref.ToAST(t.item)
	case 'a':
		return ast.NewASCIINodeVariable(t.name, t.lo, t.hi)
	}
	var a []interface{}
	for i, s := range t.slots {
		if s != "" {
			a = append(a, s)
		} else {
			a = append(a, goVal(t.k, t.words[i]))
		}
	}
	switch {
	case t.k == ref.B:
		return ast.NewBinaryNode(a...)
	case t.k == ref.BOOL:
		return ast.NewBooleanNode(a...)
	case t.k == ref.F4 || t.k == ref.F8:
		return ast.NewFloatNode(ref.Width[t.k], a...)
	case t.k >= ref.I1 && t.k <= ref.I8:
		return ast.NewIntNode(ref.Width[t.k], a...)
	}
	return ast.NewUintNode(ref.Width[t.k], a...)
}

// vars lists the variables in order of appearance.
func (t *tpl) vars() []*tplVar {
	var out []*tplVar
	switch t.kind {
	case 'l':
		for _, k := range t.kids {
			out = append(out, k.vars()...)
		}
	case 'v', 'e', 'a':
		out = append(out, &tplVar{t.name, t, -1})
	case 's':
		for i, s := range t.slots {
			if s != "" {
				out = append(out, &tplVar{s, t, i})
			}
		}
	}
	return out
}

type tplVar struct {
	name string
	t    *tpl
	slot int
}

func suffix(dims []int) string {
	s := ""
	for _, d := range dims {
		s += fmt.Sprintf("[%d]", d)
	}
	return s
}

// expand fills the given ellipses (by name) and returns the resulting template list.
func (t *tpl) expand(vals map[string]int, dims []int) *tpl {
	switch t.kind {
	case 'l':
		out := &tpl{kind: 'l'}
		pos, n := -1, 0
		for i, k := range t.kids {
			if k.kind == 'e' {
				if v, ok := vals[k.name]; ok {
					pos, n = i, v
				}
			}
		}
		if pos < 0 {
			for _, k := range t.kids {
				out.kids = append(out.kids, k.expand(vals, dims))
			}
			return out
		}
		for rep := 0; rep <= n; rep++ {
			d := dims
			if n > 0 {
				d = append(append([]int(nil), dims...), rep)
			}
			for _, k := range t.kids[:pos] {
				out.kids = append(out.kids, k.expand(vals, d))
			}
		}
		for _, k := range t.kids[pos+1:] {
			out.kids = append(out.kids, k.expand(vals, dims))
		}
		return out
	case 'c':
		return t
	case 'e':
		return &tpl{kind: 'e', name: t.name}
	case 'v':
		return &tpl{kind: 'v', name: t.name + suffix(dims)}
	case 'a':
		return &tpl{kind: 'a', name: t.name + suffix(dims), lo: t.lo, hi: t.hi}
	}
	o := &tpl{kind: 's', k: t.k, words: t.words}
	for _, s := range t.slots {
		if s != "" {
			s += suffix(dims)
		}
		o.slots = append(o.slots, s)
	}
	return o
}

// fillVals substitutes variables; values are what the model puts in place.
type tplVal struct {
	word uint64
	item ref.Item // for 'v' and 'a'
	ren  string   // rename instead
}

func (t *tpl) fill(vals map[string]tplVal) *tpl {
	switch t.kind {
	case 'l':
		o := &tpl{kind: 'l'}
		for _, k := range t.kids {
			o.kids = append(o.kids, k.fill(vals))
		}
		return o
	case 'a', 'v':
		v, ok := vals[t.name]
		if !ok {
			return t
		}
		if v.ren != "" {
			n := *t
			n.name = v.ren
			return &n
		}
		return &tpl{kind: 'c', item: v.item}
	case 's':
		o := &tpl{kind: 's', k: t.k, slots: append([]string(nil), t.slots...), words: append([]uint64(nil), t.words...)}
		for i, s := range t.slots {
			if v, ok := vals[s]; ok && s != "" {
				if v.ren != "" {
					o.slots[i] = v.ren
				} else {
					o.slots[i], o.words[i] = "", v.word
				}
			}
		}
		return o
	}
	return t
}

// item is the concrete item of a template with nothing left to fill.
func (t *tpl) concrete() (ref.Item, bool) {
	switch t.kind {
	case 'l':
		o := ref.Item{K: ref.L}
		for _, k := range t.kids {
			it, ok := k.concrete()
			if !ok {
				return o, false
			}
			o.List = append(o.List, it)
		}
		return o, true
	case 'c':
		return t.item, true
	case 's':
		for _, s := range t.slots {
			if s != "" {
				return ref.Item{}, false
			}
		}
		return ref.Item{K: t.k, Words: t.words}, true
	}
	return ref.Item{}, false
}

// valueFor makes an acceptable value for a variable.
func valueFor(r *rand.Rand, v *tplVar) (tplVal, interface{}) {
	switch v.t.kind {
	case 'v':
		it := ref.Gen(r, 1, 3)
		return tplVal{item: it}, ref.ToAST(it)
	case 'a':
		n := v.t.lo
		if v.t.hi == -1 {
			n += r.Intn(5)
		} else {
			n += r.Intn(v.t.hi - v.t.lo + 1)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(128))
		}
		return tplVal{item: ref.Asc(string(b))}, string(b)
	}
	w := finiteWord(r, v.t.k)
	return tplVal{word: w}, goVal(v.t.k, w)
}

// fillAll makes an assignment for all variables of the template (ellipses with 0..2).
func fillAll(r *rand.Rand, t *tpl, node ast.ItemNode) map[string]interface{} {
	out := map[string]interface{}{}
	ell := map[string]int{}
	for _, v := range t.vars() {
		if v.t.kind == 'e' {
			n := r.Intn(3)
			ell[v.name] = n
			out[v.name] = n
		}
	}
	for _, v := range t.expand(ell, nil).vars() {
		if v.t.kind != 'e' {
			_, g := valueFor(r, v)
			out[v.name] = g
		}
	}
	return out
}

func p09(c *mon.Ctx) {
	p09Vars(c)
	p09Ellipsis(c)
	p09Bad(c)
}

// sameTemplate compares the real node with the model template; ellipsis names are taken from the node.
func p09Same(c *mon.Ctx, label, what string, node ast.ItemNode, t *tpl, replay any) bool {
	want := t.vars()
	got := node.Variables()
	if len(want) != len(got) {
		c.Violate("wrong-variables", replay, "%s %s: variables %v, expected %v", label, what, got, tplNames(want))
		return false
	}
	nEll := 0
	for i, v := range want {
		if v.t.kind == 'e' {
			if n := fmt.Sprintf("...[%d]", nEll); got[i] != n && got[i] != "..." && got[i] != v.t.name {
				c.Violate("wrong-variables", replay, "%s %s: variable %d is %q, expected an ellipsis named \"...\" or %q", label, what, i, got[i], n)
				return false
			}
			nEll++
			v.t.name = got[i]
		} else if v.name != got[i] {
			c.Violate("wrong-variables", replay, "%s %s: variables %v, expected %v", label, what, got, tplNames(want))
			return false
		}
	}
	it, full := t.concrete()
	b := node.ToBytes()
	if full {
		if !bytes.Equal(b, ref.Encode(it.Normal())) {
			c.Violate("wrong-encoding", replay, "%s %s: encodes to %s, expected %s", label, what, cutHex(b), cutHex(ref.Encode(it)))
			return false
		}
		return true
	}
	if len(b) != 0 {
		c.Violate("template-encodes", replay, "%s %s: still has %v but encodes to %s", label, what, got, cutHex(b))
		return false
	}
	if w := str(t.build()); str(node) != w {
		c.Violate("wrong-template", replay, "%s %s: got\n%s\nexpected\n%s", label, what, node, w)
		return false
	}
	return true
}

func tplNames(vs []*tplVar) (out []string) {
	for _, v := range vs {
		out = append(out, v.name)
	}
	return
}

func copyTpl(t *tpl) *tpl {
	o := *t
	o.kids = nil
	for _, k := range t.kids {
		o.kids = append(o.kids, copyTpl(k))
	}
	return &o
}

// p09Vars: templates without ellipses, filled in seeded partitions and with renames.
func p09Vars(c *mon.Ctx) {
	n := c.N(3000, 120000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("vars-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		t := genTpl(r, &tplGen{}, 1+r.Intn(4))
		pv, st := mon.Recover(func() {
			node := t.build()
			replay := map[string]any{"template": str(node)}
			if !p09Same(c, label, "unfilled", node, copyTpl(t), replay) {
				return
			}
			vs := t.vars()
			real := map[string]interface{}{}
			model := map[string]tplVal{}
			for _, v := range vs {
				m, g := valueFor(r, v)
				model[v.name], real[v.name] = m, g
			}
			replay["values"] = fmt.Sprint(real)
			once := node.FillVariables(real)
			if !p09Same(c, label, "filled at once", once, t.fill(model), replay) {
				return
			}
			// in steps
			for rep := 0; rep < 2; rep++ {
				cur, curT := node, copyTpl(t)
				perm := r.Perm(len(vs))
				for len(perm) > 0 {
					k := 1 + r.Intn(len(perm))
					step := map[string]interface{}{"unrelated": 5, "...": 3}
					ms := map[string]tplVal{}
					for _, p := range perm[:k] {
						step[vs[p].name] = real[vs[p].name]
						ms[vs[p].name] = model[vs[p].name]
					}
					perm = perm[k:]
					cur = cur.FillVariables(step)
					curT = curT.fill(ms)
					if !p09Same(c, label, fmt.Sprintf("after filling part %v", keys(step)), cur, curT, replay) {
						return
					}
				}
				if !bytes.Equal(cur.ToBytes(), once.ToBytes()) {
					c.Violate("steps-differ", replay, "%s: filling in steps gives other bytes than filling at once", label)
				}
			}
			// renaming a scalar variable
			for _, v := range vs {
				if v.t.kind == 's' || v.t.kind == 'v' {
					nn := "renamed_1"
					cur := node.FillVariables(map[string]interface{}{v.name: nn})
					if !p09Same(c, label, "after renaming "+v.name, cur, t.fill(map[string]tplVal{v.name: {ren: nn}}), replay) {
						return
					}
					break
				}
			}
			// the message around it
			h := genHdr(r)
			wb := r.Intn(3)
			if wb == 1 {
				h.function |= 1
			}
			name, dir := []string{"", "T", "Name/1"}[r.Intn(3)], []string{"H->E", "H<-E", "H<->E"}[r.Intn(3)]
			tm := ast.NewDataMessage(name, h.stream, h.function, wb, dir, node)
			if r.Intn(2) == 0 {
				tm = tm.SetSessionIDAndSystemBytes(h.session, sysBytes(h.sys))
			}
			tf := tm.FillVariables(real)
			if tf.Header() != tm.Header() || tf.Name() != tm.Name() || tf.WaitBit() != tm.WaitBit() || tf.SessionID() != tm.SessionID() || !bytes.Equal(tf.SystemBytes(), tm.SystemBytes()) || tf.Direction() != dir || tf.Name() != name {
				c.Violate("header-changed", replay, "%s: filling the message %q (wait %s, session %d, %x) gives %q (wait %s, session %d, %x)", label, tm.Header(), tm.WaitBit(), tm.SessionID(), tm.SystemBytes(), tf.Header(), tf.WaitBit(), tf.SessionID(), tf.SystemBytes())
			}
			if tm.SessionID() == -1 || wb == 2 {
				if len(tf.ToBytes()) != 0 {
					c.Violate("template-encodes", replay, "%s: a message with session %d and wait bit %s encodes", label, tf.SessionID(), tf.WaitBit())
				}
			}
			msg := ast.NewDataMessage("T", 1, 3, 1, "H->E", node).SetSessionIDAndSystemBytes(7, []byte{0, 0, 0, 9})
			fm := msg.FillVariables(real)
			w := ref.Msg{Session: 7, Byte2: 0x81, Byte3: 3, Sys: 9, Text: once.ToBytes()}
			if !bytes.Equal(fm.ToBytes(), w.Bytes()) {
				c.Violate("wrong-encoding", replay, "%s: filled message encodes to %s, expected %s", label, cutHex(fm.ToBytes()), cutHex(w.Bytes()))
			}
			if len(vs) > 0 && len(msg.ToBytes()) != 0 {
				c.Violate("template-encodes", replay, "%s: unfilled message encodes", label)
			}
			c.Case(str(node)+fmt.Sprint(real), len(vs) > 1)
			c.Count("variables_filled", len(vs))
			if i < 2 {
				c.Sample(replay)
			}
		})
		if pv != nil {
			c.Violate("fill-panics", nil, "%s: %v\n%s", label, pv, st)
		}
	})
}

func keys(m map[string]interface{}) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// p09Ellipsis: nested ellipses filled in one or several steps, outermost first, then the variables.
func p09Ellipsis(c *mon.Ctx) {
	n := c.N(4000, 150000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("ell-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var t *tpl
		var g *tplGen
		for {
			g = &tplGen{ell: true}
			t = genTpl(r, g, 2+r.Intn(3))
			if g.nEll > 0 {
				break
			}
		}
		if g.nEll == 1 && r.Intn(2) == 0 {
			for _, v := range t.vars() {
				if v.t.kind == 'e' {
					v.t.name = "..."
				}
			}
		}
		var replay map[string]any
		pv, st := mon.Recover(func() {
			node := t.build()
			if strings.Count(str(node), "\n") > 200 {
				return
			}
			replay = map[string]any{"template": str(node), "variables": node.Variables()}
			ell := map[string]int{}
			real := map[string]interface{}{}
			for _, v := range t.vars() {
				if v.t.kind == 'e' {
					k := []int{0, 1, 1, 2, 3}[r.Intn(5)]
					ell[v.name] = k
					real[v.name] = k
				}
			}
			replay["ellipses"] = fmt.Sprint(ell)
			// all at once
			full := t.expand(ell, nil)
			if len(full.vars()) > 3000 {
				return
			}
			got := node.FillVariables(real)
			if !p09Same(c, label, "all ellipses filled", got, full, replay) {
				return
			}
			// ellipses and variables in one call
			vals := map[string]interface{}{}
			model := map[string]tplVal{}
			for k, v := range real {
				vals[k] = v
			}
			for _, v := range full.vars() {
				m, gv := valueFor(r, v)
				model[v.name], vals[v.name] = m, gv
			}
			if !p09Same(c, label, "ellipses and variables filled", node.FillVariables(vals), full.fill(model), replay) {
				return
			}
			// any subset of the ellipses first
			sub, subReal := map[string]int{}, map[string]interface{}{}
			for k, v := range ell {
				if r.Intn(2) == 0 {
					sub[k], subReal[k] = v, v
				}
			}
			part := t.expand(sub, nil)
			pn := node.FillVariables(subReal)
			if !p09Same(c, label, fmt.Sprintf("ellipses %v filled", keys(subReal)), pn, part, replay) {
				return
			}
			// then the remaining ones, under the names they have now
			rest, restReal := map[string]int{}, map[string]interface{}{}
			for _, v := range part.vars() {
				if v.t.kind == 'e' {
					k := r.Intn(3)
					rest[v.t.name], restReal[v.t.name] = k, k
				}
			}
			part2 := part.expand(rest, nil)
			if len(part2.vars()) < 3000 {
				if !p09Same(c, label, fmt.Sprintf("then %v", restReal), pn.FillVariables(restReal), part2, replay) {
					return
				}
			}
			// outermost first, one level per step, equals at once
			c.Case(str(node)+fmt.Sprint(ell, sub, rest), true)
			c.Count("ellipses_filled", len(ell))
			c.Max("largest_expansion_variables", len(full.vars()))
			if i < 2 {
				c.Sample(replay)
			}
		})
		if pv != nil {
			c.Violate("fill-panics", replay, "%s: %v\n%s", label, pv, st)
		}
	})
}

// p09Bad: unacceptable values are refused and the template is not affected.
func p09Bad(c *mon.Ctx) {
	n := c.N(2000, 50000)
	bs := boundaryArgs()
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("bad-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		t := genTpl(r, &tplGen{}, 1+r.Intn(3))
		vs := t.vars()
		if len(vs) == 0 {
			return
		}
		v := vs[r.Intn(len(vs))]
		bad := bs[r.Intn(len(bs))]
		node := t.build()
		before := str(node)
		legal := false
		var model tplVal
		switch v.t.kind {
		case 'v':
			if s, ok := bad.(string); ok {
				legal = varRe.MatchString(s)
				model.ren = s
				if varReEll.MatchString(s) {
					return // turning a variable into an ellipsis depends on its position
				}
			}
		case 'a':
			if s, ok := bad.(string); ok {
				legal = strings.IndexFunc(s, func(r rune) bool { return r > 127 }) < 0 && len(s) >= v.t.lo && (v.t.hi == -1 || len(s) <= v.t.hi)
				if legal {
					model.item = ref.Asc(s)
				}
			}
		default:
			verdict, w := p08Model(v.t.k, bad)
			if verdict == either {
				return
			}
			legal = verdict != mustPanic
			model.word = w
			if verdict == isVar {
				model.ren = bad.(string)
			}
		}
		d := fmt.Sprintf("%s := %T(%v) in %s", v.name, bad, bad, before)
		var got ast.ItemNode
		pv, _ := mon.Recover(func() { got = node.FillVariables(map[string]interface{}{v.name: bad}) })
		switch {
		case pv == nil && !legal:
			c.Violate("bad-value-accepted", d, "%s: accepted, giving %v", d, got)
		case pv != nil && legal:
			c.Violate("good-value-refused", d, "%s: %v", d, pv)
		case pv == nil:
			p09Same(c, label, "filled with "+d, got, t.fill(map[string]tplVal{v.name: model}), d)
		}
		if str(node) != before {
			c.Violate("template-changed", d, "%s: the template itself changed", d)
		}
		c.Case(d, true)
		if pv != nil {
			c.Count("values_refused", 1)
		}
	})
}

// nearKeywords are variable names that look like keywords of the message text without being one.
var nearKeywords = []string{"true", "FALSE", "list", "ascii", "bool", "BINARY", "u3", "I5", "f2", "tt", "w", "W", "S1F1", "h", "H", "L1", "Boolean1", "_", "__", "F16", "i", "u", "NaN", "inf", "e5", "x0"}
