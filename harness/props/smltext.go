package props

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/ref"
)

// smlMsg is the harness's model of one SML message.
type smlMsg struct {
	name     string
	s, f     int
	wait     string // "true", "false", "optional"
	dir      string
	noDir    bool // direction left out of the text
	item     *tpl // nil: header only
	dirGiven string
}

// tok is one SML token. kind: 'S' stream function, 'W' wait bit, 'D' direction, 'N' name, '<', '>', '.',
// 'T' type, 'Z' size, '#' number, 'b' bool, 'V' variable, '"' string, 'E' ellipsis.
type tok struct {
	kind byte
	text string
}

var (
	reNameBad  = regexp.MustCompile(`(?i)^(?:S\d+F\d+|W|\[W\])+(?:$|[^A-Za-z0-9_])`)
	smlKeyword = map[string]bool{"L": true, "A": true, "B": true, "BOOLEAN": true, "F4": true, "F8": true, "I1": true, "I2": true, "I4": true, "I8": true,
		"U1": true, "U2": true, "U4": true, "U8": true, "T": true, "F": true}
)

func smlNameOK(s string) bool {
	if s == "" || s[0] == '.' || s[0] == '<' || strings.Contains(s, "//") || strings.Contains(s, "->") || strings.Contains(s, "<-") || reNameBad.MatchString(s) {
		return false
	}
	return strings.IndexFunc(s, unicode.IsSpace) < 0
}

func genName(r *rand.Rand) string {
	words := []string{"AreYouThere?", "WaferMap", "w_1", "Wafer.Map", "S1F1Reply", "SF", "H", "HELLO", "W2", "wW", "a<b", "x>y", "3", "T", "L", "加熱", "é", "[x]", "\"q\"", "Übung", "a/b", "*"}
	for {
		s := words[r.Intn(len(words))]
		if r.Intn(3) == 0 {
			s = ""
			alpha := []rune("abcWSFHw019_-.<>[]\"'/*,;:!?()#éÅ加熱ñ\u00a1\u4e00")
			for i := 1 + r.Intn(8); i > 0; i-- {
				s += string(alpha[r.Intn(len(alpha))])
			}
		}
		if smlNameOK(s) {
			return s
		}
	}
}

func genSmlMsg(r *rand.Rand, ell bool) smlMsg {
	m := smlMsg{s: r.Intn(128), f: r.Intn(256), wait: "false", dir: []string{"H->E", "H<-E", "H<->E"}[r.Intn(3)]}
	switch r.Intn(3) {
	case 0:
		m.wait = "optional"
	case 1:
		if m.f%2 == 1 {
			m.wait = "true"
		}
	}
	if r.Intn(3) > 0 {
		m.name = genName(r)
	}
	if r.Intn(8) > 0 {
		m.item = genTpl(r, &tplGen{ell: ell}, r.Intn(5))
		if r.Intn(3) == 0 {
			m.item = &tpl{kind: 'c', item: p10Item(r)}
		}
	}
	return m
}

// p10Item is a concrete item a data message can hold: 7-bit text, finite floats.
func p10Item(r *rand.Rand) ref.Item {
	for {
		it := ref.Gen(r, r.Intn(5), 6)
		if !it.NonASCII() && !it.NonFinite() && it.Depth() < 100 {
			return it
		}
	}
}

func (m smlMsg) node() *ast.DataMessage {
	w := map[string]int{"false": 0, "true": 1, "optional": 2}[m.wait]
	var it ast.ItemNode = ast.NewEmptyItemNode()
	if m.item != nil {
		it = m.item.build()
	}
	return ast.NewDataMessage(m.name, m.s, m.f, w, m.dir, it)
}

// smlSame compares a parsed message with the model.
func smlSame(c *mon.Ctx, label, what string, got *ast.DataMessage, m smlMsg, replay any) bool {
	if got.Name() != m.name || got.StreamCode() != m.s || got.FunctionCode() != m.f || got.WaitBit() != m.wait || got.Direction() != m.dir {
		c.Violate("wrong-header", replay, "%s %s: header parsed as %q S%dF%d wait=%s %s, expected %q S%dF%d wait=%s %s", label, what,
			got.Name(), got.StreamCode(), got.FunctionCode(), got.WaitBit(), got.Direction(), m.name, m.s, m.f, m.wait, m.dir)
		return false
	}
	if m.item == nil {
		if s := got.Header() + "\n."; str2(got) != s {
			c.Violate("wrong-item", replay, "%s %s: header-only message parsed as\n%s", label, what, got)
			return false
		}
		return true
	}
	it, err := got.Get()
	if err != nil {
		c.Violate("wrong-item", replay, "%s %s: no item: %v", label, what, err)
		return false
	}
	if strings.HasSuffix(str2(got), got.Header()+"\n.") {
		c.Violate("wrong-item", replay, "%s %s: parsed as a header-only message, expected\n%v", label, what, m.item.build())
		return false
	}
	// in a text, ellipses are counted from 0 in every message
	want := copyTpl(m.item)
	n := 0
	for _, v := range want.vars() {
		if v.t.kind == 'e' {
			v.t.name = fmt.Sprintf("...[%d]", n)
			n++
		}
	}
	for i, v := range want.vars() {
		if vs := it.Variables(); v.t.kind == 'e' && i < len(vs) && vs[i] != v.t.name && (n > 1 || vs[i] != "...") {
			c.Violate("wrong-ellipsis", replay, "%s %s: an ellipsis is called %q, expected %q", label, what, vs[i], v.t.name)
			return false
		}
	}
	if !p09Same(c, label, what, it, want, replay) {
		return false
	}
	// the lengths an ASCII variable takes
	probed := 0
	for _, v := range want.vars() {
		if v.t.kind != 'a' || probed == 3 || v.t.lo > 1<<17 || v.t.hi > 1<<17 {
			continue
		}
		probed++
		for _, n := range []int{v.t.lo - 1, v.t.lo, v.t.hi, v.t.hi + 1} {
			if n < 0 || v.t.hi == -1 && n < v.t.lo && n != v.t.lo-1 {
				continue
			}
			fits := n >= v.t.lo && (v.t.hi == -1 || n <= v.t.hi)
			pv, _ := mon.Recover(func() { it.FillVariables(map[string]interface{}{v.name: strings.Repeat("z", n)}) })
			if fits != (pv == nil) {
				c.Violate("wrong-length-limit", replay, "%s %s: the ASCII variable %s of length %d..%d filled with %d characters: refused %v (%v)", label, what, v.name, v.t.lo, v.t.hi, n, pv != nil, pv)
				return false
			}
			c.Count("length_limits", 1)
		}
	}
	return true
}

func str2(m *ast.DataMessage) string { return m.String() }

// tokens renders the message as tokens, with seeded notations.
func (m smlMsg) tokens(r *rand.Rand) []tok {
	rc := func(s string) string { return randCase(r, s) }
	ts := []tok{{'S', rc(fmt.Sprintf("S%dF%d", m.s, m.f))}}
	switch m.wait {
	case "true":
		ts = append(ts, tok{'W', rc("W")})
	case "optional":
		ts = append(ts, tok{'W', rc("[W]")})
	}
	if !m.noDir {
		ts = append(ts, tok{'D', rc(m.dir)})
	}
	if m.name != "" {
		ts = append(ts, tok{'N', m.name})
	}
	if m.item != nil {
		ts = append(ts, m.item.tokens(r)...)
	}
	return append(ts, tok{'.', "."})
}

func randCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = byte(unicode.ToLower(rune(b[i])))
			}
		}
		return string(b)
	}
	return s
}

func sizeTok(r *rand.Rand, n int) []tok {
	bl := func() string { return []string{"", "", "", " ", "\t", "\n "}[r.Intn(6)] }
	lo, hi := n-r.Intn(min(n, 3)+1), n+r.Intn(4)
	switch r.Intn(6) {
	case 0, 1:
		return nil
	case 2:
		return []tok{{'Z', fmt.Sprintf("[%s%d%s]", bl(), n, bl())}}
	case 3:
		return []tok{{'Z', fmt.Sprintf("[%s%d%s..%s%d%s]", bl(), lo, bl(), bl(), hi, bl())}}
	case 4:
		return []tok{{'Z', fmt.Sprintf("[%s..%s%d%s]", bl(), bl(), hi, bl())}}
	}
	return []tok{{'Z', fmt.Sprintf("[%s%d%s..%s]", bl(), lo, bl(), bl())}}
}

func (t *tpl) tokens(r *rand.Rand) []tok {
	ty := func(k ref.Kind) tok { return tok{'T', randCase(r, k.String())} }
	ts := []tok{{'<', "<"}}
	switch t.kind {
	case 'l':
		ts = append(ts, ty(ref.L))
		ell := false
		for _, k := range t.kids {
			ell = ell || k.kind == 'e'
		}
		if !ell {
			ts = append(ts, sizeTok(r, len(t.kids))...)
		}
		for _, k := range t.kids {
			switch k.kind {
			case 'v':
				ts = append(ts, tok{'V', k.name})
			case 'e':
				if r.Intn(2) == 0 {
					ts = append(ts, tok{'E', "..."})
				} else {
					ts = append(ts, tok{'E', k.name})
				}
			default:
				ts = append(ts, k.tokens(r)...)
			}
		}
	case 'a':
		ts = append(ts, ty(ref.A))
		switch {
		case t.lo == t.hi:
			ts = append(ts, tok{'Z', fmt.Sprintf("[%d]", t.lo)})
		case t.hi == -1 && t.lo == 0:
			if r.Intn(2) == 0 {
				ts = append(ts, tok{'Z', "[0..]"})
			}
		case t.hi == -1:
			ts = append(ts, tok{'Z', fmt.Sprintf("[%d..]", t.lo)})
		case t.lo == 0 && r.Intn(2) == 0:
			ts = append(ts, tok{'Z', fmt.Sprintf("[..%d]", t.hi)})
		default:
			ts = append(ts, tok{'Z', fmt.Sprintf("[%d..%d]", t.lo, t.hi)})
		}
		ts = append(ts, tok{'V', t.name})
	case 's':
		ts = append(ts, ty(t.k))
		ts = append(ts, sizeTok(r, len(t.slots))...)
		for i, s := range t.slots {
			if s != "" {
				ts = append(ts, tok{'V', s})
			} else {
				ts = append(ts, wordTok(r, t.k, t.words[i]))
			}
		}
	case 'c':
		it := t.item
		ts = append(ts, ty(it.K))
		switch it.K {
		case ref.L:
			ts = append(ts, sizeTok(r, len(it.List))...)
			for _, k := range it.List {
				ts = append(ts, (&tpl{kind: 'c', item: k}).tokens(r)...)
			}
		case ref.A:
			ts = append(ts, sizeTok(r, len(it.Words))...)
			ts = append(ts, textToks(r, it.Str())...)
		default:
			ts = append(ts, sizeTok(r, len(it.Words))...)
			for _, w := range it.Words {
				ts = append(ts, wordTok(r, it.K, w))
			}
		}
	}
	return append(ts, tok{'>', ">"})
}

func textToks(r *rand.Rand, s string) (ts []tok) {
	cur := ""
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch < 32 || ch > 126 || ch == '"' || r.Intn(12) == 0 {
			if cur != "" {
				ts = append(ts, tok{'"', `"` + cur + `"`})
				cur = ""
			}
			ts = append(ts, tok{'#', intText(r, uint64(ch), false)})
			continue
		}
		cur += string(rune(ch))
		if r.Intn(15) == 0 {
			ts = append(ts, tok{'"', `"` + cur + `"`})
			cur = ""
		}
	}
	if cur != "" || len(ts) == 0 && r.Intn(2) == 0 {
		ts = append(ts, tok{'"', `"` + cur + `"`})
	}
	return
}

func intText(r *rand.Rand, w uint64, neg bool) string {
	sign := ""
	if neg {
		sign = "-"
	}
	pad := strings.Repeat("0", r.Intn(3)*r.Intn(2))
	switch r.Intn(8) {
	case 0:
		return sign + []string{"0x", "0X"}[r.Intn(2)] + pad + randCase(r, fmt.Sprintf("%X", w))
	case 1:
		return sign + []string{"0b", "0B"}[r.Intn(2)] + pad + fmt.Sprintf("%b", w)
	case 2:
		return sign + []string{"0o", "0O"}[r.Intn(2)] + pad + fmt.Sprintf("%o", w)
	case 3:
		return sign + "0" + fmt.Sprintf("%o", w)
	}
	return sign + fmt.Sprintf("%d", w)
}

func wordTok(r *rand.Rand, k ref.Kind, w uint64) tok {
	it := ref.Item{K: k, Words: []uint64{w}}
	switch {
	case k == ref.BOOL:
		return tok{'b', randCase(r, map[bool]string{true: "T", false: "F"}[w != 0])}
	case it.IsInt():
		v := it.SignedAt(0)
		if v < 0 {
			return tok{'#', intText(r, uint64(-v), true)}
		}
		s := intText(r, uint64(v), false)
		if r.Intn(6) == 0 {
			s = "+" + s
		}
		return tok{'#', s}
	case k == ref.B || it.IsUint():
		return tok{'#', intText(r, w, false)}
	}
	bits := ref.Width[k] * 8
	f := it.FloatAt(0)
	s := strconv.FormatFloat(f, "gGeEf"[r.Intn(5)], -1, bits)
	if r.Intn(6) == 0 && f == math.Trunc(f) && math.Abs(f) < 1e6 {
		s = strconv.FormatFloat(f, 'f', 0, bits) + "."
	}
	if r.Intn(6) == 0 && strings.HasPrefix(s, "0.") && len(s) > 2 && s[2] != 'e' && s[2] != 'E' {
		s = s[1:]
	}
	if r.Intn(8) == 0 && !math.Signbit(f) {
		s = "+" + s
	}
	return tok{'#', s}
}

var commentTexts = []string{"", " plain", " <L[2] \"not an item\" .", " // again", " \"unclosed", " S1F1 W H->E x .", " 1 2 3 ...", "à", " température à", " 加熱", "\u0085", "\u00a0", " x\u00a0 \t", " ends with blanks   ", "\t", "/", "*/ /*"}

func blank(r *rand.Rand, must, plain bool) string {
	if !must && r.Intn(2) == 0 {
		return ""
	}
	bl := []string{" ", "  ", "\t", "\n", "\r\n", " \t\n", "\n\n"}
	s := bl[r.Intn(len(bl))]
	if !plain && r.Intn(8) == 0 {
		if r.Intn(2) == 0 {
			s = ""
		}
		s += "//" + commentTexts[r.Intn(len(commentTexts))] + []string{"\n", "\r\n"}[r.Intn(2)]
		if r.Intn(2) == 0 {
			s += bl[r.Intn(len(bl))]
		}
	}
	return s
}

// layout puts blanks and comments between tokens; only where two tokens could run together is one required.
func layout(r *rand.Rand, ts []tok) string {
	var sb strings.Builder
	sb.WriteString(blank(r, false, false))
	header := true
	for i, t := range ts {
		sb.WriteString(t.text)
		var next tok
		if i+1 < len(ts) {
			next = ts[i+1]
		}
		if t.kind == '<' {
			header = false
		}
		if t.kind == '.' {
			header = true
		}
		var must bool
		switch {
		case i+1 == len(ts):
		case t.kind == '.':
			must = true
		case header:
			must = t.kind == 'N' || next.kind == 'N' || next.kind == 'W' || next.kind == 'D'
		default:
			free := func(k byte) bool { return k == '<' || k == '>' || k == 'Z' || k == '.' }
			must = !free(t.kind) && !free(next.kind) || next.kind == 'Z' && t.kind == 'V'
		}
		if header && strings.HasSuffix(t.text, "/") {
			sb.WriteString(" ") // or a following comment would start inside the name
		}
		sb.WriteString(blank(r, must, false))
	}
	if r.Intn(3) == 0 {
		sb.WriteString("//" + commentTexts[r.Intn(len(commentTexts))])
	}
	return sb.String()
}

// ---- reference recogniser over tokens (P11) ----

const (
	smlOK = iota
	smlBad
	smlUnknown
)

type refParser struct {
	ts      []tok
	p       int
	vars    map[string]bool
	nEll    int
	unknown bool
	inItem  bool
}

type badSML struct{ why string }

func (q *refParser) bad(format string, a ...any) { panic(badSML{fmt.Sprintf(format, a...)}) }
func (q *refParser) peek() tok {
	if q.p < len(q.ts) {
		t := q.ts[q.p]
		if u := strings.ToUpper(t.text); q.inItem && (t.kind == 'N' || t.kind == 'V') && smlKeyword[u] { // a name elsewhere
			t.kind = 'T'
			if u == "T" || u == "F" {
				t.kind = 'b'
			}
		} else if q.inItem && t.kind == 'N' {
			_, v := refInt(t.text)
			switch {
			case v == smlOK || reFloat.MatchString(t.text):
				t.kind = '#'
			case varRe.MatchString(t.text):
				t.kind = 'V'
			default:
				panic(badSML{"unknown"})
			}
		} else if !q.inItem && (t.kind == 'N' || t.kind == 'V') {
			if reSF.MatchString(t.text) {
				t.kind = 'S'
			} else if strings.EqualFold(t.text, "W") {
				t.kind = 'W'
			}
		}
		return t
	}
	return tok{0, ""}
}

// refParse decides a token sequence (rendered with a blank between all tokens).
func refParse(ts []tok) (ms []smlMsg, verdict int, why string) {
	q := &refParser{ts: ts}
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badSML)
			if !ok {
				panic(r)
			}
			ms, verdict, why = nil, smlBad, b.why
		}
	}()
	for q.p < len(q.ts) {
		ms = append(ms, q.message())
	}
	if q.unknown {
		return nil, smlUnknown, ""
	}
	return ms, smlOK, ""
}

var reSF = regexp.MustCompile(`(?i)^S(\d+)F(\d+)$`)

func (q *refParser) message() smlMsg {
	q.vars, q.nEll = map[string]bool{}, 0
	m := smlMsg{wait: "false", dir: "H<->E", noDir: true}
	t := q.peek()
	if t.kind != 'S' {
		q.bad("expected a stream function, found %q", t.text)
	}
	q.p++
	g := reSF.FindStringSubmatch(t.text)
	var e1, e2 error
	m.s, e1 = strconv.Atoi(g[1])
	m.f, e2 = strconv.Atoi(g[2])
	if e1 != nil || e2 != nil || m.s > 127 || m.f > 255 {
		q.bad("stream or function code out of range: %s", t.text)
	}
	if t = q.peek(); t.kind == 'W' {
		q.p++
		if len(t.text) == 1 {
			m.wait = "true"
			if m.f%2 == 0 {
				q.bad("wait bit on a secondary message")
			}
		} else {
			m.wait = "optional"
		}
	}
	if t = q.peek(); t.kind == 'D' {
		q.p++
		m.dir, m.noDir = strings.ToUpper(t.text), false
	}
	if t = q.peek(); t.kind != 0 && !strings.ContainsRune("SWD<.E", rune(t.kind)) && smlNameOK(t.text) {
		q.p++
		m.name = t.text
	} else if t.kind != 0 && !strings.ContainsRune("SWD<.E", rune(t.kind)) {
		if t.text[0] == '.' || strings.IndexFunc(t.text, unicode.IsSpace) >= 0 || strings.Contains(t.text, "//") {
			q.unknown = true // reads as several tokens
			panic(badSML{"unknown"})
		}
	}
	switch t = q.peek(); t.kind {
	case '.':
	case '<':
		q.inItem = true
		m.item = q.item(0)
		q.inItem = false
	default:
		q.bad("expected an item or the end of the message, found %q", t.text)
	}
	if t = q.peek(); t.kind != '.' {
		q.bad("expected the end of the message, found %q", t.text)
	}
	q.p++
	return m
}

var reSize = regexp.MustCompile(`^\[(\d*)(\.\.)?(\d*)\]$`)

func (q *refParser) variable(n string) {
	if q.vars[n] {
		q.bad("repeated variable %s", n)
	}
	q.vars[n] = true
}

func (q *refParser) item(depth int) *tpl {
	q.p++ // '<'
	t := q.peek()
	if t.kind != 'T' {
		q.bad("expected an item type, found %q", t.text)
	}
	q.p++
	var k ref.Kind
	for kk := range ref.Width {
		if strings.EqualFold(kk.String(), t.text) {
			k = kk
		}
	}
	isL := strings.EqualFold(t.text, "L")
	lo, hi := 0, -1
	if z := q.peek(); z.kind == 'Z' {
		q.p++
		g := reSize.FindStringSubmatch(strings.Join(strings.Fields(z.text), ""))
		if g == nil || g[1] == "" && g[3] == "" {
			q.bad("bad size %q", z.text)
		}
		num := func(s string) int {
			n, err := strconv.Atoi(s)
			if err != nil {
				return math.MaxInt
			}
			return n
		}
		if g[1] != "" {
			lo = num(g[1])
		}
		if g[2] == "" {
			hi = lo
		} else if g[3] != "" {
			hi = num(g[3])
		}
	}
	size := 0
	out := &tpl{}
	switch {
	case isL:
		out.kind = 'l'
		ell := false
		for q.peek().kind != '>' {
			switch t := q.peek(); t.kind {
			case '<':
				out.kids = append(out.kids, q.item(depth+1))
			case 'V', 'N':
				q.p++
				if t.kind == 'N' && !varRe.MatchString(t.text) || smlKeyword[strings.ToUpper(t.text)] {
					q.bad("in a list: %q", t.text)
				}
				q.variable(t.text)
				out.kids = append(out.kids, &tpl{kind: 'v', name: t.text})
			case 'S', 'W':
				if t.kind == 'W' && len(t.text) != 1 {
					q.bad("in a list: %q", t.text)
				}
				q.p++
				q.variable(t.text)
				out.kids = append(out.kids, &tpl{kind: 'v', name: t.text})
			case 'E':
				q.p++
				if len(out.kids) == 0 || ell {
					q.bad("misplaced ellipsis")
				}
				ell = true
				out.kids = append(out.kids, &tpl{kind: 'e', name: fmt.Sprintf("...[%d]", q.nEll)})
				q.nEll++
			default:
				q.bad("in a list: %q", t.text)
			}
		}
		size = len(out.kids)
	case k == ref.A:
		text := ""
		nv, nlit := 0, 0
		for q.peek().kind != '>' {
			t := q.peek()
			q.p++
			switch t.kind {
			case '"':
				body := t.text[1 : len(t.text)-1]
				for _, ch := range body {
					if ch > 127 {
						q.bad("not ASCII: %q", ch)
					}
				}
				text += body
				nlit++
			case '#':
				n, v := refInt(t.text)
				if v == smlBad || v == smlOK && (n.Sign() < 0 || n.Cmp(big.NewInt(127)) > 0) {
					q.bad("not an ASCII code: %q", t.text)
				}
				if t.text[0] == '+' || t.text[0] == '-' {
					q.unknown = true
				} else {
					text += string(rune(n.Int64()))
				}
				nlit++
			case 'V', 'S', 'W', 'N':
				if t.kind == 'W' && len(t.text) != 1 || t.kind == 'N' && !varRe.MatchString(t.text) || smlKeyword[strings.ToUpper(t.text)] {
					q.bad("in an A item: %q", t.text)
				}
				q.variable(t.text)
				out.name = t.text
				nv++
			default:
				q.bad("in an A item: %q", t.text)
			}
		}
		if nv > 1 || nv == 1 && nlit > 0 {
			q.bad("variable next to other text")
		}
		if nv == 1 {
			if hi != -1 && lo > hi {
				q.bad("impossible size")
			}
			if lo > 1<<20 || hi > 1<<20 {
				q.unknown = true
			}
			out.kind, out.lo, out.hi = 'a', lo, hi
			q.p++
			return out
		}
		out.kind, out.item = 'c', ref.Asc(text)
		size = len(text)
	default:
		out.kind, out.k = 's', k
		for q.peek().kind != '>' {
			t := q.peek()
			q.p++
			switch t.kind {
			case 'V', 'S', 'W', 'N':
				if t.kind == 'W' && len(t.text) != 1 || t.kind == 'N' && !varRe.MatchString(t.text) || smlKeyword[strings.ToUpper(t.text)] {
					q.bad("in a %v item: %q", k, t.text)
				}
				q.variable(t.text)
				out.slots, out.words = append(out.slots, t.text), append(out.words, 0)
			case 'b':
				if k != ref.BOOL {
					q.bad("in a %v item: %q", k, t.text)
				}
				w := uint64(0)
				if strings.EqualFold(t.text, "T") {
					w = 1
				}
				out.slots, out.words = append(out.slots, ""), append(out.words, w)
			case '#':
				if k == ref.BOOL {
					q.bad("in a BOOLEAN item: %q", t.text)
				}
				w, v := refNum(k, t.text)
				if v == smlBad {
					q.bad("%q is not a %v", t.text, k)
				}
				if v == smlUnknown {
					q.unknown = true
				}
				out.slots, out.words = append(out.slots, ""), append(out.words, w)
			default:
				q.bad("in a %v item: %q", k, t.text)
			}
		}
		size = len(out.slots)
		if size == 0 {
			out = &tpl{kind: 'c', item: ref.Item{K: k}}
		}
	}
	if size < lo || hi != -1 && size > hi {
		q.bad("size %d does not fit [%d..%d]", size, lo, hi)
	}
	if depth > 200 {
		q.unknown = true
	}
	q.p++
	return out
}

var (
	reDec   = regexp.MustCompile(`^[+-]?(0|[1-9][0-9]*)$`)
	reOct   = regexp.MustCompile(`^[+-]?0[oO]?[0-7]+$`)
	reHex   = regexp.MustCompile(`^[+-]?0[xX][0-9a-fA-F]+$`)
	reBin   = regexp.MustCompile(`^[+-]?0[bB][01]+$`)
	reFloat = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

func refInt(s string) (*big.Int, int) {
	body := strings.TrimLeft(s, "+-")
	n := new(big.Int)
	ok := false
	switch {
	case reDec.MatchString(s):
		n, ok = n.SetString(body, 10)
	case reHex.MatchString(s):
		n, ok = n.SetString(body[2:], 16)
	case reBin.MatchString(s):
		n, ok = n.SetString(body[2:], 2)
	case reOct.MatchString(s):
		n, ok = n.SetString(strings.TrimLeft(strings.ToLower(body), "o0")+"", 8)
		if strings.Trim(strings.ToLower(body), "0o") == "" {
			n, ok = new(big.Int), true
		}
	}
	if !ok {
		return nil, smlBad
	}
	if s[0] == '-' {
		n.Neg(n)
	}
	return n, smlOK
}

func refNum(k ref.Kind, s string) (uint64, int) {
	bits := uint(ref.Width[k]) * 8
	if k == ref.F4 || k == ref.F8 {
		if !reFloat.MatchString(s) {
			return 0, smlBad
		}
		f, err := strconv.ParseFloat(s, int(bits))
		if err != nil {
			return 0, smlBad
		}
		if k == ref.F4 {
			return uint64(math.Float32bits(float32(f))), smlOK
		}
		return math.Float64bits(f), smlOK
	}
	n, v := refInt(s)
	if v != smlOK {
		return 0, v
	}
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
	if k >= ref.I1 && k <= ref.I8 {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return 0, smlBad
	}
	if k >= ref.U1 && k <= ref.U8 && (s[0] == '+' || s[0] == '-') {
		return 0, smlUnknown
	}
	w := uint64(n.Int64())
	if n.Sign() >= 0 {
		w = n.Uint64()
	}
	if bits < 64 {
		w &= 1<<bits - 1
	}
	return w, smlOK
}
