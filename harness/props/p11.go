package props

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P11", Run: p11,
		Rule:   "texts (random bytes, token soup, byte- and token-level mutations of valid messages, injected faults, adversarial sizes and nesting) parsed under panic, hang, output and memory monitors, and judged by an independent recogniser where the text is token-separated; non-trivial when the parser reported an error or the recogniser decided; distinct by text",
		Assume: []string{"signs on unsigned numbers and text codes, and sizes beyond a megabyte on text variables, are left unspecified"}})
}

var rePos = regexp.MustCompile(`^Ln (\d+), Col (\d+): (?s:.+)$`)

// p11Survive parses text under the survival monitors.
func p11Survive(c *mon.Ctx, label, text string) (got []*ast.DataMessage, errs []string, ok bool) {
	var pv any
	var st string
	if !mon.Within(mon.Hang*2, func() {
		pv, st = mon.Recover(func() { got, errs, _ = sml.Parse(text) })
	}) {
		c.Violate("hang", text, "%s: Parse of %d bytes did not return\n%s", label, len(text), mon.LibStacks())
		return nil, nil, false
	}
	if pv != nil {
		c.Violate("panic", text, "%s: Parse panicked: %v\n%s\ninput %.500q", label, pv, st, text)
		return nil, nil, false
	}
	c.Count("parses", 1)
	if len(errs) > 0 && len(got) > 0 {
		c.Violate("messages-with-errors", text, "%s: %d messages returned with errors %v", label, len(got), errs)
		return nil, nil, false
	}
	for _, e := range errs {
		if why := p11Pos(text, e); why != "" {
			c.Violate("bad-position", text, "%s: error %q: %s\ninput %.500q", label, e, why, text)
			return nil, nil, false
		}
	}
	c.Count("errors_reported", len(errs))
	return got, errs, true
}

func p11Pos(text, e string) string {
	g := rePos.FindStringSubmatch(e)
	if g == nil {
		return "not of the form \"Ln x, Col y: text\""
	}
	ln, _ := strconv.Atoi(g[1])
	col, _ := strconv.Atoi(g[2])
	lines := strings.Split(text, "\n")
	if ln < 1 || ln > len(lines) {
		return fmt.Sprintf("line %d of %d", ln, len(lines))
	}
	if n := utf8.RuneCountInString(lines[ln-1]); col < 1 || col > n+1 {
		return fmt.Sprintf("column %d of a line of %d", col, n)
	}
	return ""
}

func p11(c *mon.Ctx) {
	oldOut, oldErr := os.Stdout, os.Stderr
	f, err := os.CreateTemp("", "p11out")
	if err == nil {
		os.Stdout, os.Stderr = f, f
		defer func() {
			os.Stdout, os.Stderr = oldOut, oldErr
			if fi, err := f.Stat(); err == nil && fi.Size() > 0 {
				b := make([]byte, 500)
				n, _ := f.ReadAt(b, 0)
				c.Violate("writes-output", string(b[:n]), "Parse wrote %d bytes to the process's output: %q", fi.Size(), b[:n])
			}
			f.Close()
		}()
	}
	p11Tokens(c)
	p11Faults(c)
	p11Fuzz(c)
	p11Memory(c)
}

// p11Tokens: token-level mutations, judged by the independent recogniser.
func p11Tokens(c *mon.Ctx) {
	n := c.N(12000, 800000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("tokens-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var ts []tok
		for j := 1 + r.Intn(3)*r.Intn(2); j > 0; j-- {
			m := genSmlMsg(r, r.Intn(2) == 0)
			if r.Intn(2) == 0 && m.item != nil {
				m.item = genLeaf(r, &tplGen{})
			}
			mt := m.tokens(r)
			if len(mt) > 120 {
				continue
			}
			ts = append(ts, mt...)
		}
		if i%6 == 0 {
			ts = nil
			for j := r.Intn(12); j > 0; j-- {
				ts = append(ts, p11Tok(r))
			}
			if r.Intn(2) == 0 {
				ts = append([]tok{{'S', "S1F1"}, {'<', "<"}}, append(ts, tok{'>', ">"}, tok{'.', "."})...)
			}
		}
		for j := r.Intn(4); j > 0 && len(ts) > 0; j-- {
			p := r.Intn(len(ts))
			switch r.Intn(6) {
			case 0:
				ts = append(ts[:p:p], ts[p+1:]...)
			case 1:
				ts = append(ts[:p:p], append([]tok{ts[r.Intn(len(ts))]}, ts[p:]...)...)
			case 2:
				q := r.Intn(len(ts))
				ts[p], ts[q] = ts[q], ts[p]
			case 3:
				ts[p] = p11Tok(r)
			case 4: // same kind, another text
				t := p11Tok(r)
				for k := 0; k < 30 && t.kind != ts[p].kind; k++ {
					t = p11Tok(r)
				}
				ts[p] = t
			case 5:
				ts = append(ts[:p:p], append([]tok{p11Tok(r)}, ts[p:]...)...)
			}
		}
		var sb strings.Builder
		for _, t := range ts {
			sb.WriteString(t.text)
			sb.WriteString([]string{" ", "\n", "\t", " // c\n"}[r.Intn(4)])
		}
		text := sb.String()
		want, verdict, why := refParse(ts)
		if verdict == smlBad && why == "unknown" {
			verdict = smlUnknown
		}
		got, errs, ok := p11Survive(c, label, text)
		if !ok {
			return
		}
		c.Case(text, verdict != smlUnknown)
		switch verdict {
		case smlBad:
			c.Count("refusals_required", 1)
			if len(errs) == 0 {
				var out []string
				for _, g := range got {
					out = append(out, fmt.Sprint(g))
				}
				c.Violate("bad-text-accepted", text, "%s: accepted although %s\ninput:\n%s\nparsed as:\n%s", label, why, text, strings.Join(out, "\n"))
			}
		case smlOK:
			c.Count("acceptances_required", 1)
			if len(errs) > 0 {
				c.Violate("good-text-refused", text, "%s: refused with %v\ninput:\n%s", label, errs, text)
				return
			}
			if len(got) != len(want) {
				c.Violate("wrong-count", text, "%s: %d messages, expected %d\ninput:\n%s", label, len(got), len(want), text)
				return
			}
			for j := range want {
				if pv, st := mon.Recover(func() { smlSame(c, label, fmt.Sprintf("message %d", j), got[j], want[j], text) }); pv != nil {
					c.Violate("panic", text, "%s: %v\n%s", label, pv, st)
				}
			}
		default:
			c.Count("undecided", 1)
		}
		if i < 6 {
			c.Sample(map[string]any{"text": text, "errors": errs})
		}
	})
}

var p11Nums = []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649",
	"4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"99999999999999999999999999", "0x7F", "0x80", "0xFF", "0x100", "0xFFFFFFFFFFFFFFFF", "0x1FFFFFFFFFFFFFFFF", "0b11111111", "0b100000000", "0o377", "0o400", "0377", "0400", "08", "09",
	"0x", "0b", "0o", "0b2", "0o8", "0xg", "-", "+", "1.5", "1.", ".5", "-.5", "1e3", "1e", "1e+", "1e400", "-1e400", "1e39", "3.5e38", "3.4e38", "1e-400", "0x1.8", "0x1e5", "1_000", "1a", "+5", "-0", "--5", "+-5"}

func p11Tok(r *rand.Rand) tok {
	switch r.Intn(16) {
	case 0:
		return tok{'S', []string{"S1F1", "s2f2", "S127F255", "S128F1", "S1F256", "S0F0", "S999F1", "S99999999999999999999F1", "S1F99999999999999999999"}[r.Intn(9)]}
	case 1:
		return tok{'W', []string{"W", "[W]", "w"}[r.Intn(3)]}
	case 2:
		return tok{'D', []string{"H->E", "H<-E", "H<->E", "h->e"}[r.Intn(4)]}
	case 3:
		return tok{'N', []string{"Name", "Are?", "x.y", "é"}[r.Intn(4)]}
	case 4:
		return tok{'<', "<"}
	case 5:
		return tok{'>', ">"}
	case 6:
		return tok{'.', "."}
	case 7, 8:
		return tok{'T', []string{"L", "A", "B", "BOOLEAN", "F4", "F8", "I1", "I2", "I4", "I8", "U1", "U2", "U4", "U8", "boolean", "u4"}[r.Intn(16)]}
	case 9:
		return tok{'Z', []string{"[0]", "[1]", "[2]", "[3]", "[0..1]", "[2..]", "[..1]", "[3..1]", "[..]", "[]", "[-1]", "[1..2..3]", "[99999999999999999999]", "[0..99999999999999999999]", "[x]", "[ 1 ]", "[1.5]"}[r.Intn(17)]}
	case 10, 11:
		return tok{'#', p11Nums[r.Intn(len(p11Nums))]}
	case 12:
		return tok{'b', []string{"T", "F", "t", "f"}[r.Intn(4)]}
	case 13:
		return tok{'V', []string{"x", "y", "x[0]", "x[0][1]", "_", "T1", "L2", "S1F"}[r.Intn(8)]}
	case 14:
		return tok{'"', []string{`"a"`, `""`, `"a b"`, `"é"`, `"// no"`, `"<>."`, `"x"`}[r.Intn(7)]}
	}
	return tok{'E', []string{"...", "...[0]", "...[1]", "...[7]"}[r.Intn(4)]}
}

// p11Faults: one fault in an otherwise valid text must be reported.
func p11Faults(c *mon.Ctx) {
	bad := map[string]string{
		"no-end":                "S1F1 W H->E\n<L>",
		"no-close":              "S1F1 W H->E\n<L <A \"x\">\n.",
		"extra-close":           "S1F1 W H->E\n<L>>\n.",
		"two-items":             "S1F1 W H->E\n<A \"x\"> <A \"y\">\n.",
		"wait-on-reply":         "S1F2 W H->E\n.",
		"stream-128":            "S128F1 H->E\n.",
		"function-256":          "S1F256 H->E\n.",
		"huge-stream":           "S99999999999999999999999F1 H->E\n.",
		"newline-in-string":     "S1F1 H->E <A \"a\nb\">\n.",
		"newline-first":         "S1F1 H->E <A \"\nb\">\n.",
		"newline-only":          "S1F1 H->E <A \"\n\">\n.",
		"cr-in-string":          "S1F1 H->E <A \"\rb\">\n.",
		"unclosed-string":       "S1F1 H->E <A \"abc>\n.",
		"non-ascii":             "S1F1 H->E <A \"caf\u00e9\">\n.",
		"non-ascii-latin1":      "S1F1 H->E <A \"caf\xe9\">\n.",
		"code-128":              "S1F1 H->E <A 128>\n.",
		"code-0x80":             "S1F1 H->E <A 0x80>\n.",
		"code-huge":             "S1F1 H->E <A 340282366920938463463374607431768211456>\n.",
		"code-negative":         "S1F1 H->E <A -1>\n.",
		"code-float":            "S1F1 H->E <A 1.5>\n.",
		"string-in-list":        "S1F1 H->E <L \"x\">\n.",
		"number-in-list":        "S1F1 H->E <L 5>\n.",
		"item-in-scalar":        "S1F1 H->E <U1 <U1 5>>\n.",
		"no-type":               "S1F1 H->E <5>\n.",
		"bad-type":              "S1F1 H->E <U3 5>\n.",
		"jis":                   "S1F1 H->E <J \"x\">\n.",
		"size-short":            "S1F1 H->E <U1[3] 1 2>\n.",
		"size-long":             "S1F1 H->E <U1[1] 1 2>\n.",
		"size-range":            "S1F1 H->E <A[4..9] \"abc\">\n.",
		"size-upto":             "S1F1 H->E <A[..2] \"abc\">\n.",
		"size-from":             "S1F1 H->E <A[4..] \"abc\">\n.",
		"size-list":             "S1F1 H->E <L[1] <L> <L>>\n.",
		"size-zero":             "S1F1 H->E <L[0] <L>>\n.",
		"size-empty":            "S1F1 H->E <L[] <L>>\n.",
		"size-huge":             "S1F1 H->E <U1[18446744073709551618] 1 2>\n.",
		"size-huge-list":        "S1F1 H->E <L[18446744073709551617] <L>>\n.",
		"size-inverted":         "S1F1 H->E <U1[3..1] 1 2>\n.",
		"size-inverted-low":     "S1F1 H->E <U1[3..1] 1>\n.",
		"size-inverted-high":    "S1F1 H->E <U1[3..1] 1 2 3>\n.",
		"size-inverted-string":  "S1F1 H->E <A[5..2] \"abc\">\n.",
		"size-inverted-list":    "S1F1 H->E <L[2..1] <L>>\n.",
		"size-inverted-empty":   "S1F1 H->E <B[2..1]>\n.",
		"size-2^32":             "S1F1 H->E <U1[4294967298] 1 2>\n.",
		"dup-variable":          "S1F1 H->E <L <A x> <A x>>\n.",
		"dup-variable-u":        "S1F1 H->E <L <U1 x> <U1 1 x>>\n.",
		"dup-variable-list":     "S1F1 H->E <L x x>\n.",
		"dup-variable-bool":     "S1F1 H->E <L <BOOLEAN x> <BOOLEAN x>>\n.",
		"dup-variable-b":        "S1F1 H->E <L <B x> <B x>>\n.",
		"dup-variable-f":        "S1F1 H->E <L <F4 x> <F4 x>>\n.",
		"dup-variable-i":        "S1F1 H->E <L <I4 x> <I4 x>>\n.",
		"dup-variable-deep":     "S1F1 H->E <L <L <L x>> <I4 x>>\n.",
		"ellipsis-first":        "S1F1 H->E <L ... <A x>>\n.",
		"two-ellipses":          "S1F1 H->E <L <A x> ... <A y> ...>\n.",
		"ellipsis-in-scalar":    "S1F1 H->E <U1 5 ...>\n.",
		"second-message-bad":    "S1F1 H->E\n.\nS1F3 H->E <U1 256>\n.",
		"trailing-garbage":      "S1F1 H->E\n.\ngarbage",
		"leading-garbage":       "garbage S1F1 H->E\n.",
		"no-function":           "S1 H->E\n.",
		"wait-after-direction":  "S1F1 H->E W\n<U1 5>.",
		"bool-in-number":        "S1F1 H->E <U1 T>\n.",
		"number-in-bool":        "S1F1 H->E <BOOLEAN 1>\n.",
		"variable-with-literal": "S1F1 H->E <A \"x\" v>\n.",
	}
	delete(bad, "wait-after-direction") // W reads as a second wait bit or a name: unspecified
	for name, text := range bad {
		for _, tr := range []string{"", "\r\n", "lead"} {
			label := "fault-" + name + tr
			if c.Skip(label) {
				continue
			}
			t := text
			switch tr {
			case "\r\n":
				if strings.Contains(name, "in-string") || strings.Contains(name, "newline") {
					continue
				}
				t = strings.ReplaceAll(text, "\n", "\r\n")
			case "lead":
				t = "// comment \u00e0\nS1F13 W H->E Ok\n<L[2] <A \"x\"> <U4 5>>\n.\n" + text
			}
			got, errs, ok := p11Survive(c, label, t)
			if ok && len(errs) == 0 {
				c.Violate("bad-text-accepted", t, "%s: accepted, as %v\ninput:\n%s", label, got, t)
			}
			c.Case(t, true)
			c.Count("faults_injected", 1)
		}
	}
	// every number notation at every range edge of every type
	for _, ty := range []string{"B", "I1", "I2", "I4", "I8", "U1", "U2", "U4", "U8", "F4", "F8", "A", "BOOLEAN", "L"} {
		for _, num := range p11Nums {
			label := "edge-" + ty + "-" + num
			if c.Skip(label) {
				continue
			}
			ts := []tok{{'S', "S1F1"}, {'D', "H->E"}, {'<', "<"}, {'T', ty}, {'#', num}, {'>', ">"}, {'.', "."}}
			want, verdict, why := refParse(ts)
			text := "S1F1 H->E <" + ty + " " + num + " > ."
			got, errs, ok := p11Survive(c, label, text)
			if !ok {
				continue
			}
			c.Case(text, true)
			c.Count("number_edges", 1)
			switch {
			case verdict == smlBad && len(errs) == 0:
				c.Violate("bad-text-accepted", text, "%s: accepted although %s: %v", label, why, got)
			case verdict == smlOK && len(errs) > 0:
				c.Violate("good-text-refused", text, "%s: refused: %v", label, errs)
			case verdict == smlOK:
				if len(got) == 1 {
					smlSame(c, label, "edge", got[0], want[0], text)
				} else {
					c.Violate("wrong-count", text, "%s: %d messages", label, len(got))
				}
			}
		}
	}
}

// p11Fuzz: survival on arbitrary text.
func p11Fuzz(c *mon.Ctx) {
	n := c.N(12000, 1500000)
	soup := []string{"S1F1", "S1F2", "W", "[W]", "H->E", "H<->E", ".", "..", "...", "...[3]", "<", ">", "<L", "<A", "<U4", "<F8", "<BOOLEAN", "[", "]", "[2]", "[2..", "..3]", "//", "\n", "\r", " ", "\t",
		"\"", "\"abc\"", "0x", "0b", "1e", "-", "+", "5", "1.5", "x", "T", "F", "é", "加", "\xff", "\x00", "\u0085", "\u00a0", "\u2028", "%s", "%", "\\", "[0][0]"}
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("fuzz-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var text string
		switch r.Intn(4) {
		case 0:
			b := make([]byte, r.Intn(60))
			r.Read(b)
			text = string(b)
		case 1:
			for j := r.Intn(40); j > 0; j-- {
				text += soup[r.Intn(len(soup))]
			}
		default:
			m := genSmlMsg(r, true)
			text = layout(r, m.tokens(r))
			b := []byte(text)
			for j := 1 + r.Intn(4); j > 0 && len(b) > 0; j-- {
				p := r.Intn(len(b))
				switch r.Intn(5) {
				case 0:
					b[p] = byte(r.Intn(256))
				case 1:
					b = append(b[:p:p], b[p+1:]...)
				case 2:
					b = append(b[:p:p], append([]byte(soup[r.Intn(len(soup))]), b[p:]...)...)
				case 3:
					b = b[:p]
				case 4:
					q := r.Intn(len(b))
					b[p], b[q] = b[q], b[p]
				}
			}
			text = string(b)
		}
		got, errs, ok := p11Survive(c, label, text)
		if !ok {
			return
		}
		c.Case(text, len(errs) > 0)
		if len(errs) == 0 && len(got) > 0 {
			c.Count("mutants_accepted", 1)
			// what was accepted must be a consistent reading: printed, it parses to the same again
			printed := ""
			names := true
			for _, g := range got {
				printed += fmt.Sprint(g) + "\n"
				names = names && (g.Name() == "" || smlNameOK(g.Name()))
			}
			if !names {
				return
			}
			again, errs2, ok := p11Survive(c, label+"-printed", printed)
			if !ok {
				return
			}
			p2 := ""
			for _, g := range again {
				p2 += fmt.Sprint(g) + "\n"
			}
			if len(errs2) > 0 || p2 != printed {
				c.Violate("inconsistent-reading", text, "%s: accepted text prints as\n%s\nwhich parses to\n%s %v", label, printed, p2, errs2)
			}
		}
	})
}

// p11Memory: adversarial texts, one at a time, under a heap monitor.
func p11Memory(c *mon.Ctx) {
	rep := strings.Repeat
	cases := map[string]string{
		"nested-lists":       "S1F1 H->E " + rep("<L", 200000),
		"nested-closed":      "S1F1 H->E " + rep("<L ", 3000) + rep(">", 3000) + ".",
		"nested-250":         "S1F1 H->E " + rep("<L ", 250) + rep(">", 250) + ".",
		"close-soup":         "S1F1 H->E <L " + rep(">", 20000),
		"long-number":        "S1F1 H->E <U8 " + rep("9", 300000) + ">.",
		"long-float":         "S1F1 H->E <F8 0." + rep("9", 300000) + ">.",
		"long-exp":           "S1F1 H->E <F8 1e" + rep("9", 300000) + ">.",
		"long-name":          "S1F1 H->E " + rep("n", 300000) + "\n.",
		"long-variable":      "S1F1 H->E <U8 " + rep("v", 300000) + ">.",
		"long-string":        "S1F1 H->E <A \"" + rep("s", 300000) + "\">.",
		"huge-size":          "S1F1 H->E <L[999999999999] >.",
		"huge-size-a":        "S1F1 H->E <A[999999999999] x>.",
		"huge-size-b":        "S1F1 H->E <B[999999999999] x>.",
		"dup-big-text":       "S1F1 H->E <L <A[16777215] x>" + rep("<A[16777215] x>", 150) + ">.",
		"dup-huge-text":      "S1F1 H->E <L <A[999999999] x>" + rep("<A[999999999] x>", 150) + ">.",
		"many-messages":      rep("S1F1 W H->E\n.\n", 3000),
		"many-bad":           "S1F1 H->E <U1 " + rep("999 ", 4000) + ">.",
		"many-comments":      rep("// x\n", 20000),
		"many-ellipsis":      "S1F1 H->E <L x " + rep("... ", 3000) + ">.",
		"dots":               rep(".", 20000),
		"brackets":           "S1F1 H->E <L" + rep("[", 20000),
		"stream-digits":      "S" + rep("1", 100000) + "F" + rep("1", 100000) + " .",
		"index-run":          "S1F1 H->E <L x" + rep("[0]", 20000) + ">.",
		"big-index":          "S1F1 H->E <L x[" + rep("9", 20000) + "]>.",
		"big-ellipsis":       "S1F1 H->E <L x ...[" + rep("9", 20000) + "]>.",
		"quotes":             "S1F1 H->E <A " + rep("\"\"", 4000) + ">.",
		"header-only-no-end": "S1F1 W H->E Name",
		"empty":              "",
		"blank":              " \n\t\r\n",
		"bom":                "\ufeffS1F1 H->E\n.",
	}
	names := make([]string, 0, len(cases))
	for n := range cases {
		names = append(names, n)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(50))
	for _, n := range names {
		label := "big-" + n
		if c.Skip(label) || c.Broken() {
			continue
		}
		text := cases[n]
		runtime.GC()
		var m0 runtime.MemStats
		runtime.ReadMemStats(&m0)
		var peak atomic.Uint64
		stop, done := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(done)
			var m runtime.MemStats
			for {
				runtime.ReadMemStats(&m)
				if h := m.HeapAlloc - min(m0.HeapAlloc, m.HeapAlloc); h > peak.Load() {
					peak.Store(h)
				}
				select {
				case <-stop:
					return
				case <-time.After(3 * time.Millisecond):
				}
			}
		}()
		_, errs, ok := p11Survive(c, label, text)
		close(stop)
		<-done
		if !ok {
			continue
		}
		c.Case(label, true)
		c.Max("peak_heap_MB", int(peak.Load()>>20))
		if peak.Load() > 1<<30 {
			c.Violate("memory", label, "%s: parsing %d bytes of text held %d MB of heap (errors: %.200v)", label, len(text), peak.Load()>>20, errs)
		}
	}
}
