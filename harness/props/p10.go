package props

import (
	"fmt"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P10", Run: p10,
		Rule:   "messages printed by the library and messages laid out by the harness (notations, sizes, case, blanks, comments) from a model, parsed and compared with the model header and item; non-trivial when there is an item; distinct by text",
		Assume: []string{"message and variable names are ones the grammar can read as names (not keywords, not starting with '.' or '<', no comment delimiter)", "items hold 7-bit text and finite floats, as the item factories require"}})
}

func p10(c *mon.Ctx) {
	n := c.N(3000, 200000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("print-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		k := 1 + r.Intn(4)*r.Intn(2)
		var ms []smlMsg
		var nodes []*ast.DataMessage
		text := ""
		pv, st := mon.Recover(func() {
			for j := 0; j < k; j++ {
				m := genSmlMsg(r, r.Intn(2) == 0)
				nd := m.node()
				if m.item != nil && r.Intn(4) == 0 { // fill some variables first
					it := m.item
					vals := map[string]interface{}{}
					model := map[string]tplVal{}
					for _, v := range it.vars() {
						if v.t.kind != 'e' && r.Intn(2) == 0 {
							a, b := valueFor(r, v)
							if v.t.kind == 'v' && (a.item.NonASCII() || a.item.NonFinite()) {
								continue
							}
							model[v.name], vals[v.name] = a, b
						}
					}
					m.item = it.fill(model)
					nd = nd.FillVariables(vals)
				}
				ms, nodes = append(ms, m), append(nodes, nd)
				text += fmt.Sprint(nd) + []string{"\n", "\n\n", " ", "\r\n"}[r.Intn(4)]
			}
		})
		if pv != nil {
			c.Violate("panic", text, "%s: building or printing panicked: %v\n%s", label, pv, st)
			return
		}
		p10Parse(c, label, text, ms, true)
		c.Count("printed_messages", k)
	})
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("layout-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		k := 1 + r.Intn(4)*r.Intn(2)
		var ms []smlMsg
		var ts []tok
		for j := 0; j < k; j++ {
			m := genSmlMsg(r, r.Intn(2) == 0)
			if r.Intn(6) == 0 {
				m.noDir, m.dir = true, "H<->E"
			}
			ms = append(ms, m)
			ts = append(ts, m.tokens(r)...)
		}
		for rep := 0; rep < 3; rep++ { // the layout must not matter
			p10Parse(c, label, layout(r, ts), ms, false)
			c.Count("layouts", 1)
		}
	})
	p10Chars(c)
}

func p10Parse(c *mon.Ctx, label, text string, ms []smlMsg, printed bool) {
	pv, st := mon.Recover(func() {
		got, errs, warns := sml.Parse(text)
		if len(errs) > 0 {
			c.Violate("refused", text, "%s: valid text refused: %v\n%s", label, errs, text)
			return
		}
		if len(got) != len(ms) {
			c.Violate("wrong-count", text, "%s: %d messages parsed, %d in the text\n%s", label, len(got), len(ms), text)
			return
		}
		noDir := 0
		for j, m := range ms {
			if m.noDir {
				noDir++
			}
			if !smlSame(c, label, fmt.Sprintf("message %d", j), got[j], m, text) {
				return
			}
			if printed && fmt.Sprint(got[j]) != strings.TrimSpace(fmt.Sprint(m.node())) {
				c.Violate("not-a-fixpoint", text, "%s: printed again as\n%s\nwas\n%s", label, got[j], m.node())
				return
			}
		}
		for _, w := range warns {
			if !strings.Contains(w, "direction") && !strings.Contains(w, "ellipsis") {
				c.Violate("odd-warning", text, "%s: warning on valid text: %s", label, w)
			}
		}
		_ = noDir
	})
	if pv != nil {
		c.Violate("panic", text, "%s: %v\n%s\n%s", label, pv, st, text)
	}
	non := false
	for _, m := range ms {
		non = non || m.item != nil
	}
	c.Case(text, non)
	c.Max("longest_text", len(text))
	if non && len(text) < 300 {
		c.Sample(text)
	}
}

// p10Chars prints every 7-bit character, alone and next to every kind of neighbour, and every length around a size change.
func p10Chars(c *mon.Ctx) {
	one := func(label string, it ref.Item) {
		if c.Skip(label) {
			return
		}
		m := smlMsg{s: 1, f: 1, wait: "true", dir: "H->E", item: &tpl{kind: 'c', item: it}}
		p10Parse(c, label, fmt.Sprint(m.node()), []smlMsg{m}, true)
		c.Count("character_contexts", 1)
	}
	nb := []byte{0, '\n', ' ', '"', '/', '\\', '<', '>', '.', 'x', 127, '\'', '0'}
	for ch := 0; ch < 128; ch++ {
		one(fmt.Sprintf("char-%d", ch), ref.Asc(string(rune(ch))))
		for _, a := range nb {
			one(fmt.Sprintf("char-%d-%d", a, ch), ref.Asc(string([]byte{a, byte(ch)})))
			one(fmt.Sprintf("char-%d-%d-r", ch, a), ref.Asc(string([]byte{byte(ch), a})))
			one(fmt.Sprintf("char-%d-%d-m", a, ch), ref.Asc(string([]byte{a, byte(ch), a, byte(ch)})))
		}
	}
	r := c.Rng("kinds")
	for _, k := range ref.ScalarKinds() {
		for n := 0; n < 40; n++ {
			it := ref.GenKind(r, k, n%7)
			if it.NonASCII() || it.NonFinite() {
				continue
			}
			one(fmt.Sprintf("kind-%v-%d", k, n), it)
		}
	}
	deep := ref.Lst()
	for d := 0; d < 200; d++ {
		deep = ref.Lst(deep)
	}
	one("deep", deep)
	one("long", ref.Asc(strings.Repeat("abc\"", 4000)))
}
