package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P08", Run: p08,
		Rule:   "factory calls: every Go argument type and boundary or random value crossed with every item format, positions and list sizes, judged by a range model (exact value or described panic); plus immutability snapshots around operations; non-trivial when the value is at or beyond a boundary of the format or mixed with others; distinct by format and arguments",
		Assume: []string{"floating-point values are rounded to the format's precision as IEEE 754 prescribes", "binary items accept int, int8 and uint8 as documented; for other integer types either the exact value or a described panic is right", "callers do not write into slices returned by Values or SystemBytes"}})
}

type fmtSpec struct {
	name  string
	build func(args ...interface{}) ast.ItemNode
	k     ref.Kind
}

func fmtSpecs() []fmtSpec {
	var fs []fmtSpec
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		fs = append(fs, fmtSpec{fmt.Sprintf("I%d", n), func(a ...interface{}) ast.ItemNode { return ast.NewIntNode(n, a...) }, map[int]ref.Kind{1: ref.I1, 2: ref.I2, 4: ref.I4, 8: ref.I8}[n]})
		fs = append(fs, fmtSpec{fmt.Sprintf("U%d", n), func(a ...interface{}) ast.ItemNode { return ast.NewUintNode(n, a...) }, map[int]ref.Kind{1: ref.U1, 2: ref.U2, 4: ref.U4, 8: ref.U8}[n]})
	}
	for _, n := range []int{4, 8} {
		n := n
		fs = append(fs, fmtSpec{fmt.Sprintf("F%d", n), func(a ...interface{}) ast.ItemNode { return ast.NewFloatNode(n, a...) }, map[int]ref.Kind{4: ref.F4, 8: ref.F8}[n]})
	}
	fs = append(fs, fmtSpec{"B", func(a ...interface{}) ast.ItemNode { return ast.NewBinaryNode(a...) }, ref.B})
	fs = append(fs, fmtSpec{"BOOLEAN", func(a ...interface{}) ast.ItemNode { return ast.NewBooleanNode(a...) }, ref.BOOL})
	return fs
}

// verdicts of the range model
const (
	mustOK = iota
	mustPanic
	either
	isVar
)

var varRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*(\[[0-9]+\])*$`)
var binRe = regexp.MustCompile(`^0b[01]+$`)

type myInt int
type myStr string

// p08Model says what building format k from v must do, and the wire word if it must succeed.
func p08Model(k ref.Kind, v interface{}) (verdict int, word uint64) {
	if s, ok := v.(string); ok {
		if k == ref.B && strings.HasPrefix(s, "0b") {
			if !binRe.MatchString(s) {
				if t := strings.ReplaceAll(s, "_", ""); binRe.MatchString(t) && len(t) < 11 { // Go's digit separator: unspecified
					n, _ := new(big.Int).SetString(t[2:], 2)
					if n.Uint64() < 256 {
						return either, n.Uint64()
					}
				}
				return mustPanic, 0
			}
			n, ok := new(big.Int).SetString(s[2:], 2)
			if !ok || n.Cmp(big.NewInt(255)) > 0 {
				return mustPanic, 0
			}
			return mustOK, n.Uint64()
		}
		if varRe.MatchString(s) {
			return isVar, 0
		}
		return mustPanic, 0
	}
	if b, ok := v.(bool); ok {
		if k != ref.BOOL {
			return mustPanic, 0
		}
		if b {
			return mustOK, 1
		}
		return mustOK, 0
	}
	if k == ref.BOOL {
		return mustPanic, 0
	}
	var n *big.Int
	var f float64
	isF := false
	switch x := v.(type) {
	case int:
		n = big.NewInt(int64(x))
	case int8:
		n = big.NewInt(int64(x))
	case int16:
		n = big.NewInt(int64(x))
	case int32:
		n = big.NewInt(int64(x))
	case int64:
		n = big.NewInt(x)
	case uint:
		n = new(big.Int).SetUint64(uint64(x))
	case uint8:
		n = big.NewInt(int64(x))
	case uint16:
		n = big.NewInt(int64(x))
	case uint32:
		n = big.NewInt(int64(x))
	case uint64:
		n = new(big.Int).SetUint64(x)
	case float32:
		isF, f = true, float64(x)
	case float64:
		isF, f = true, x
	default:
		return mustPanic, 0
	}
	w := uint(ref.Width[k]) * 8
	switch {
	case k == ref.F4 || k == ref.F8:
		if !isF {
			f, _ = new(big.Float).SetInt(n).Float64()
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return mustPanic, 0
		}
		if k == ref.F8 {
			return mustOK, math.Float64bits(f)
		}
		if math.Abs(f) > math.MaxFloat32 {
			if math.IsInf(float64(float32(f)), 0) {
				return mustPanic, 0
			}
			return either, uint64(math.Float32bits(float32(f)))
		}
		return mustOK, uint64(math.Float32bits(float32(f)))
	case isF:
		return mustPanic, 0
	}
	lo, hi := new(big.Int), new(big.Int)
	switch {
	case k == ref.B:
		hi.SetInt64(255)
	case k >= ref.I1 && k <= ref.I8:
		hi.Lsh(big.NewInt(1), w-1)
		lo.Neg(hi)
		hi.Sub(hi, big.NewInt(1))
	default:
		hi.Lsh(big.NewInt(1), w)
		hi.Sub(hi, big.NewInt(1))
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return mustPanic, 0
	}
	word = n.Uint64()
	if n.Sign() < 0 {
		word = uint64(n.Int64())
	}
	if w < 64 {
		word &= 1<<w - 1
	}
	if k == ref.B {
		switch v.(type) {
		case int, int8, uint8:
		default:
			return either, word
		}
	}
	return mustOK, word
}

// described: a panic with a message, as opposed to a runtime error.
func described(pv any) bool {
	if _, rt := pv.(runtime.Error); rt {
		return false
	}
	switch x := pv.(type) {
	case string:
		return x != ""
	case error:
		return x.Error() != ""
	case fmt.Stringer:
		return true
	}
	return false
}

func boundaryArgs() []interface{} {
	var vs []interface{}
	var ints []*big.Int
	for _, b := range []uint{0, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), b)
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			ints = append(ints, x, new(big.Int).Neg(x))
		}
	}
	ints = append(ints, big.NewInt(0), big.NewInt(100), big.NewInt(-100))
	for _, x := range ints {
		if x.IsInt64() {
			i := x.Int64()
			vs = append(vs, int(i), i)
			if int64(int8(i)) == i {
				vs = append(vs, int8(i))
			}
			if int64(int16(i)) == i {
				vs = append(vs, int16(i))
			}
			if int64(int32(i)) == i {
				vs = append(vs, int32(i))
			}
		}
		if x.IsUint64() {
			u := x.Uint64()
			vs = append(vs, uint(u), u)
			if u < 1<<8 {
				vs = append(vs, uint8(u))
			}
			if u < 1<<16 {
				vs = append(vs, uint16(u))
			}
			if u < 1<<32 {
				vs = append(vs, uint32(u))
			}
		}
	}
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, math.MaxFloat32, -math.MaxFloat32, math.MaxFloat32 * 1.0000000001, math.MaxFloat32 * 1.1, math.MaxFloat32 * 1.00000004, -math.MaxFloat32 * 1.00000005, math.MaxFloat32 * 1.00000007, -math.MaxFloat32 * 2,
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 16777217, 1e-40, 255, 256}
	for _, f := range fs {
		vs = append(vs, f, float32(f))
	}
	vs = append(vs, true, false, nil, []byte{1}, []int{1}, complex(1, 1), myInt(1), myStr("a"), uintptr(1), struct{}{}, &struct{}{}, map[string]int{}, 'x',
		"v", "var_1", "_", "a[0]", "a[0][12]", "Z9[3]", "", " ", "a b", "9a", "a-b", "a[", "a[]", "a[x]", "a[0]b", "[0]", "...", "...[0]", "变量", "a\n", "é",
		"0b0", "0b1", "0b11111111", "0b100000000", "0b2", "0b", "0b-1", "0b1_0", "0b1 ", "0B1", "0x10", "12", "0b00000000000000011", "0b"+strings.Repeat("1", 64), "0b"+strings.Repeat("1", 70))
	return vs
}

func p08(c *mon.Ctx) {
	p08Cross(c)
	p08Mixed(c)
	p08ASCII(c)
	p08Lists(c)
	p08Limits(c)
	p08Messages(c)
	p08Immutable(c)
}

func p08Judge(c *mon.Ctx, fs fmtSpec, args []interface{}, label string) {
	verdict := mustOK
	var words []uint64
	seen := map[string]bool{}
	var vars []string
	why := ""
	for i, a := range args {
		v, w := p08Model(fs.k, a)
		words = append(words, w)
		switch v {
		case mustPanic:
			if verdict != mustPanic {
				why = fmt.Sprintf("argument %d: %T(%v)", i, a, a)
			}
			verdict = mustPanic
		case either:
			if verdict == mustOK {
				verdict = either
			}
		case isVar:
			s := a.(string)
			if seen[s] {
				verdict = mustPanic
				why = "repeated variable " + s
			}
			seen[s] = true
			vars = append(vars, s)
		}
	}
	var node ast.ItemNode
	pv, st := mon.Recover(func() { node = fs.build(args...) })
	desc := fmt.Sprintf("%s of %s", fs.name, argStr(args))
	if pv != nil {
		if verdict == mustOK {
			c.Violate("legal-value-refused", desc, "%s: building panicked: %v", desc, pv)
		} else if !described(pv) {
			c.Violate("undescribed-panic", desc, "%s: building raised %v\n%s", desc, pv, st)
		}
		return
	}
	if verdict == mustPanic {
		got := "?"
		mon.Recover(func() { got = str(node) })
		c.Violate("illegal-value-accepted", desc, "%s: accepted as %s (illegal: %s)", desc, got, why)
		return
	}
	if node.Size() != len(args) {
		c.Violate("wrong-size", desc, "%s: Size() = %d", desc, node.Size())
		return
	}
	if len(vars) > 0 {
		if fmt.Sprint(node.Variables()) != fmt.Sprint(vars) {
			c.Violate("wrong-variables", desc, "%s: Variables() = %v", desc, node.Variables())
		}
		if len(node.ToBytes()) != 0 {
			c.Violate("template-encodes", desc, "%s: has variables yet encodes to %x", desc, node.ToBytes())
		}
		return
	}
	got, err := ref.FromAST(node)
	if err != nil {
		c.Violate("unreadable", desc, "%s: %v", desc, err)
		return
	}
	want := ref.Item{K: fs.k, Words: words}
	if !ref.Equal(got.Normal(), want.Normal()) {
		c.Violate("value-changed", desc, "%s: holds %v, expected %v", desc, got, want)
		return
	}
	if b := node.ToBytes(); !bytes.Equal(b, ref.Encode(want)) {
		c.Violate("wrong-encoding", desc, "%s: encodes to %s, expected %s", desc, cutHex(b), cutHex(ref.Encode(want)))
	}
}

func argStr(args []interface{}) string {
	var s []string
	for i, a := range args {
		if i > 20 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%T(%v)", a, a))
	}
	return strings.Join(s, ", ")
}

func p08Cross(c *mon.Ctx) {
	bs := boundaryArgs()
	for _, fs := range fmtSpecs() {
		fs := fs
		mon.Parallel(8, len(bs), func(i int) {
			label := fmt.Sprintf("cross-%s-%d", fs.name, i)
			if c.Skip(label) || c.Broken() {
				return
			}
			p08Judge(c, fs, []interface{}{bs[i]}, label)
			p08Judge(c, fs, []interface{}{fillerFor(fs.k), bs[i]}, label)
			p08Judge(c, fs, []interface{}{bs[i], fillerFor(fs.k), bs[i]}, label)
			c.Case(fs.name+argStr(bs[i:i+1]), true)
			c.Count("factory_calls", 3)
		})
	}
	for _, n := range []int{-8, -1, 0, 3, 5, 6, 7, 9, 16, 64} {
		for _, f := range []func(){func() { ast.NewIntNode(n, 1) }, func() { ast.NewUintNode(n, 1) }, func() { ast.NewFloatNode(n, 1) }, func() { ast.NewIntNode(n) }} {
			pv, st := mon.Recover(f)
			if pv == nil {
				c.Violate("illegal-width", n, "byte size %d accepted", n)
			} else if !described(pv) {
				c.Violate("undescribed-panic", n, "byte size %d raised %v\n%s", n, pv, st)
			}
		}
	}
}

func fillerFor(k ref.Kind) interface{} {
	if k == ref.BOOL {
		return true
	}
	return 7
}

func randArg(r *rand.Rand) interface{} {
	u := ref.GenWord(r, ref.U8)
	switch r.Intn(13) {
	case 0:
		return int(u)
	case 1:
		return int8(u)
	case 2:
		return int16(u)
	case 3:
		return int32(u)
	case 4:
		return int64(u)
	case 5:
		return uint(u)
	case 6:
		return uint8(u)
	case 7:
		return uint16(u)
	case 8:
		return uint32(u)
	case 9:
		return u
	case 10:
		return math.Float32frombits(uint32(u))
	case 11:
		return math.Float64frombits(u)
	}
	return int(u % 300)
}

func p08Mixed(c *mon.Ctx) {
	fss := fmtSpecs()
	n := c.N(20000, 800000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("mixed-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		r := c.Rng(label)
		fs := fss[r.Intn(len(fss))]
		var args []interface{}
		m := r.Intn(6)
		if r.Intn(10) == 0 {
			m = 60 + r.Intn(300)
		}
		bad := r.Intn(3) > 0
		for len(args) < m {
			a := randArg(r)
			if r.Intn(8) == 0 {
				a = fmt.Sprintf("v%d", r.Intn(40))
			} else if fs.k == ref.BOOL {
				a = r.Intn(2) == 0
			}
			if bad {
				if v, _ := p08Model(fs.k, a); v == mustPanic {
					continue
				}
			}
			args = append(args, a)
		}
		p08Judge(c, fs, args, label)
		c.Case(fs.name+argStr(args), len(args) > 1)
		c.Count("factory_calls", 1)
	})
}

func p08ASCII(c *mon.Ctx) {
	for i := 0; i < c.N(3000, 50000); i++ {
		label := fmt.Sprintf("ascii-%d", i)
		if c.Skip(label) || c.Broken() {
			continue
		}
		r := c.Rng(label)
		b := make([]byte, r.Intn(40))
		bad := false
		for j := range b {
			b[j] = byte(r.Intn(128))
			if r.Intn(200) == 0 {
				b[j] = byte(128 + r.Intn(128))
				bad = true
			}
		}
		s := string(b)
		if r.Intn(20) == 0 {
			s += []string{"é", "世", "\u0080", "\U0001F600", "\xff"}[r.Intn(5)]
			bad = true
		}
		if i < 256 {
			s = string([]byte{byte(i)})
			bad = i > 127
		}
		var n ast.ItemNode
		pv, st := mon.Recover(func() { n = ast.NewASCIINode(s) })
		switch {
		case pv != nil && !bad:
			c.Violate("legal-value-refused", s, "ASCII %q refused: %v", s, pv)
		case pv != nil && !described(pv):
			c.Violate("undescribed-panic", s, "ASCII %q raised %v\n%s", s, pv, st)
		case pv == nil && bad:
			c.Violate("illegal-value-accepted", s, "ASCII %q accepted as %v", s, n)
		case pv == nil:
			if n.Values() != interface{}(s) || n.Size() != len(s) || !bytes.Equal(n.ToBytes(), ref.Encode(ref.Asc(s))) {
				c.Violate("value-changed", s, "ASCII %q holds %q (%d bytes), encodes to %x", s, n.Values(), n.Size(), n.ToBytes())
			}
		}
		// variables with length ranges
		lo, hi := r.Intn(8)-2, r.Intn(8)-3
		name := []string{"v", "a[1]", "", "1x", "...", "ok_2", "x y"}[r.Intn(7)]
		legal := lo >= 0 && hi >= -1 && (hi == -1 || lo <= hi) && varRe.MatchString(name)
		var vn ast.ItemNode
		pv, st = mon.Recover(func() { vn = ast.NewASCIINodeVariable(name, lo, hi) })
		d := fmt.Sprintf("ASCII variable %q [%d..%d]", name, lo, hi)
		switch {
		case pv != nil && legal:
			c.Violate("legal-value-refused", d, "%s refused: %v", d, pv)
		case pv != nil && !described(pv):
			c.Violate("undescribed-panic", d, "%s raised %v\n%s", d, pv, st)
		case pv == nil && !legal:
			c.Violate("illegal-value-accepted", d, "%s accepted", d)
		case pv == nil:
			if fmt.Sprint(vn.Variables()) != "["+name+"]" || len(vn.ToBytes()) != 0 {
				c.Violate("wrong-variables", d, "%s: variables %v, bytes %x", d, vn.Variables(), vn.ToBytes())
			}
			for l := 0; l < 8; l++ {
				fits := l >= lo && (hi == -1 || l <= hi)
				txt := strings.Repeat("x", l)
				var f ast.ItemNode
				pv, _ := mon.Recover(func() { f = vn.FillVariables(map[string]interface{}{name: txt}) })
				if fits != (pv == nil) || pv == nil && f.Values() != interface{}(txt) {
					c.Violate("ascii-length-range", d, "%s filled with %d characters: panic %v", d, l, pv)
				}
			}
			for _, x := range []interface{}{1, nil, []byte("a"), true} {
				if pv, _ := mon.Recover(func() { vn.FillVariables(map[string]interface{}{name: x}) }); pv == nil {
					c.Violate("illegal-value-accepted", d, "%s filled with %T", d, x)
				}
			}
		}
		c.Case(label+s+d, true)
		c.Count("factory_calls", 2)
	}
}

func p08Lists(c *mon.Ctx) {
	for i := 0; i < c.N(4000, 100000); i++ {
		label := fmt.Sprintf("list-%d", i)
		if c.Skip(label) || c.Broken() {
			continue
		}
		r := c.Rng(label)
		legal := true
		used := map[string]bool{}
		var args []interface{}
		var vars []string
		var build func(depth int) []interface{}
		nm := func() string {
			if r.Intn(40) == 0 {
				return []string{"", "1a", "a b", "x]", "...[", "....", "..", "...[a]", "...[0][1]"}[r.Intn(9)]
			}
			return fmt.Sprintf("n%d", r.Intn(30))
		}
		use := func(s string, list bool, pos int, ell *int) {
			isEll := s == "..." || strings.HasPrefix(s, "...[") && varReEll.MatchString(s)
			if isEll && list {
				if pos == 0 || *ell > 0 {
					legal = false
				}
				*ell++
			} else if !varRe.MatchString(s) {
				legal = false
			}
			if used[s] {
				legal = false
			}
			used[s] = true
			vars = append(vars, s)
		}
		build = func(depth int) []interface{} {
			var out []interface{}
			ell := 0
			k := r.Intn(5)
			for j := 0; j < k; j++ {
				switch r.Intn(9) {
				case 0:
					s := nm()
					use(s, true, j, &ell)
					out = append(out, s)
				case 1:
					s := fmt.Sprintf("...[%d]", r.Intn(20))
					if r.Intn(3) == 0 {
						s = "..."
					}
					use(s, true, j, &ell)
					out = append(out, s)
				case 2, 3:
					if depth < 3 {
						save := len(vars)
						_ = save
						inner := build(depth + 1)
						var n ast.ItemNode
						if pv, _ := mon.Recover(func() { n = ast.NewListNode(inner...) }); pv != nil {
							legal = false
							return append(out, nil)
						}
						out = append(out, n)
					}
				case 4:
					s := nm()
					z := 0
					use(s, false, j, &z)
					var n ast.ItemNode
					if pv, _ := mon.Recover(func() { n = ast.NewUintNode(1, 3, s) }); pv != nil {
						legal = false
						return append(out, nil)
					}
					out = append(out, n)
				case 5:
					if r.Intn(20) == 0 {
						legal = false
						out = append(out, []interface{}{1, nil, 2.5, true, []byte{1}}[r.Intn(5)])
					} else {
						out = append(out, ast.NewBooleanNode(true))
					}
				default:
					out = append(out, ref.ToAST(ref.Gen(r, 2, 4)))
				}
			}
			return out
		}
		args = build(0)
		var n ast.ItemNode
		pv, st := mon.Recover(func() { n = ast.NewListNode(args...) })
		d := argStr(args)
		switch {
		case pv != nil && legal:
			c.Violate("legal-value-refused", d, "%s: list refused: %v", d, pv)
		case pv != nil && !described(pv):
			c.Violate("undescribed-panic", d, "%s: list raised %v\n%s", d, pv, st)
		case pv == nil && !legal:
			c.Violate("illegal-value-accepted", d, "list accepted although a name or argument is illegal or repeated: %v", n)
		case pv == nil:
			if n.Size() != len(args) || strings.Join(n.Variables(), ",") != strings.Join(vars, ",") {
				c.Violate("wrong-variables", d, "list %v: size %d of %d, variables %v, expected %v", n, n.Size(), len(args), n.Variables(), vars)
			}
			if (len(n.ToBytes()) == 0) != (len(vars) > 0) {
				c.Violate("template-encodes", d, "list %v: variables %v, encoding of %d bytes", n, vars, len(n.ToBytes()))
			}
		}
		c.Case(label, len(args) > 0)
		c.Count("factory_calls", 1)
	}
}

var varReEll = regexp.MustCompile(`^\.\.\.(\[[0-9]+\])?$`)

// Size limits: the largest legal item of each format and one more.
func p08Limits(c *mon.Ctx) {
	const max = 1<<24 - 1
	try := func(name string, legal bool, f func() ast.ItemNode) {
		if c.Skip("limit-" + name) {
			return
		}
		defer c.Begin("limit-" + name)()
		var n ast.ItemNode
		pv, _ := mon.Recover(func() { n = f() })
		switch {
		case legal && pv != nil:
			c.Violate("legal-value-refused", name, "%s: %v", name, pv)
		case !legal && pv == nil:
			c.Violate("size-limit", name, "%s accepted", name)
		case !legal && !described(pv):
			c.Violate("undescribed-panic", name, "%s: %v", name, pv)
		case legal && len(n.ToBytes()) < max-8:
			c.Violate("size-limit", name, "%s encodes to %d bytes", name, len(n.ToBytes()))
		}
		c.Case("limit"+name, true)
	}
	try("A max", true, func() ast.ItemNode { return ast.NewASCIINode(strings.Repeat("a", max)) })
	try("A max+1", false, func() ast.ItemNode { return ast.NewASCIINode(strings.Repeat("a", max+1)) })
	args := make([]interface{}, max/8+1)
	for i := range args {
		args[i] = 5
	}
	for _, k := range []string{"I8", "U8", "F8"} {
		for _, fs := range fmtSpecs() {
			if fs.name == k {
				fs := fs
				try(k+" max", true, func() ast.ItemNode { return fs.build(args[:max/8]...) })
				try(k+" max+1", false, func() ast.ItemNode { return fs.build(args...) })
			}
		}
	}
	args = make([]interface{}, max/4+1)
	for i := range args {
		args[i] = 5
	}
	for _, fs := range fmtSpecs() {
		if fs.name == "I4" || fs.name == "F4" || fs.name == "U4" {
			fs := fs
			try(fs.name+" max+1", false, func() ast.ItemNode { return fs.build(args...) })
		}
	}
	if !c.Thorough() {
		// one past the limit is refused before the values are looked at
		one := make([]interface{}, max+1)
		for _, fs := range fmtSpecs() {
			if ref.Width[fs.k] == 1 {
				fs := fs
				try(fs.name+" max+1", false, func() ast.ItemNode { return fs.build(one...) })
			}
		}
		try("L max+1", false, func() ast.ItemNode { return ast.NewListNode(one...) })
		return
	}
	args = make([]interface{}, max+1)
	for _, fs := range fmtSpecs() {
		if ref.Width[fs.k] == 1 {
			fs := fs
			for i := range args {
				args[i] = fillerFor(fs.k)
			}
			try(fs.name+" max", true, func() ast.ItemNode { return fs.build(args[:max]...) })
			try(fs.name+" max+1", false, func() ast.ItemNode { return fs.build(args...) })
		}
	}
	e := ast.NewListNode()
	for i := range args {
		args[i] = e
	}
	try("L max", true, func() ast.ItemNode { return ast.NewListNode(args[:max]...) })
	try("L max+1", false, func() ast.ItemNode { return ast.NewListNode(args...) })
}

func p08Messages(c *mon.Ctx) {
	for i := 0; i < c.N(6000, 100000); i++ {
		label := fmt.Sprintf("msg-%d", i)
		if c.Skip(label) || c.Broken() {
			continue
		}
		r := c.Rng(label)
		pick := func(vs ...int) int { return vs[r.Intn(len(vs))] }
		stream, fn := pick(-1, 0, 1, 64, 127, 128, 255, r.Intn(128), r.Intn(128)), pick(-1, 0, 1, 2, 127, 255, 256, r.Intn(256), r.Intn(256))
		w := pick(-1, 0, 0, 1, 1, 2, 3)
		session := pick(-2, -1, 0, 1, 32767, 65535, 65536, r.Intn(65536), r.Intn(65536))
		dir := []string{"H->E", "H<-E", "H<->E", "", "H>E", "h->e"}[r.Intn(6)]
		if r.Intn(3) > 0 {
			dir = "H->E"
		}
		name := []string{"", "Name", "a b", "tab\t", "nl\n", "ideo\u3000space", "x.y", "nb\u00a0sp"}[r.Intn(8)]
		if r.Intn(2) == 0 {
			name = "N"
		}
		sys := []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		okBase := stream >= 0 && stream < 128 && fn >= 0 && fn < 256 && strings.HasPrefix(dir, "H<-") || stream >= 0 && stream < 128 && fn >= 0 && fn < 256 && dir == "H->E"
		okBase = okBase && strings.IndexFunc(name, func(r rune) bool { return strings.ContainsRune(" \t\n\u3000\u00a0", r) }) < 0 && !(w == 1 && fn%2 == 0)
		item := ref.Gen(r, 2, 4)
		node := ref.ToAST(item)
		d := fmt.Sprintf("S%dF%d W=%d %q %q session=%d", stream, fn, w, dir, name, session)
		judge := func(what string, legal bool, f func() *ast.DataMessage) *ast.DataMessage {
			var m *ast.DataMessage
			pv, st := mon.Recover(func() { m = f() })
			switch {
			case pv != nil && legal:
				c.Violate("legal-value-refused", d, "%s %s: %v", what, d, pv)
			case pv != nil && !described(pv):
				c.Violate("undescribed-panic", d, "%s %s: %v\n%s", what, d, pv, st)
			case pv == nil && !legal:
				c.Violate("illegal-value-accepted", d, "%s %s accepted", what, d)
			}
			if pv != nil || !legal {
				return nil
			}
			return m
		}
		fields := func(m *ast.DataMessage, w2, sess int, sb []byte) {
			ws := []string{"false", "true", "optional"}[w2]
			if m.Name() != name || m.StreamCode() != stream || m.FunctionCode() != fn || m.WaitBit() != ws || m.Direction() != dir || m.SessionID() != sess || !bytes.Equal(m.SystemBytes(), sb) {
				c.Violate("message-field-changed", d, "%s: fields read back as %s wait=%s session=%d sys=%x", d, m.Header(), m.WaitBit(), m.SessionID(), m.SystemBytes())
			}
			var want []byte
			if w2 != 2 && sess != -1 {
				rm := ref.Msg{Session: uint16(sess), Byte2: byte(stream), Byte3: byte(fn), Sys: uint32(sb[0])<<24 | uint32(sb[1])<<16 | uint32(sb[2])<<8 | uint32(sb[3]), Text: ref.Encode(item)}
				if w2 == 1 {
					rm.Byte2 |= 0x80
				}
				want = rm.Bytes()
			}
			if !bytes.Equal(m.ToBytes(), want) {
				c.Violate("wrong-encoding", d, "%s (wait %s, session %d): encodes to %s, expected %s", d, ws, sess, cutHex(m.ToBytes()), cutHex(want))
			}
		}
		m := judge("NewDataMessage", okBase && w >= 0 && w <= 2, func() *ast.DataMessage { return ast.NewDataMessage(name, stream, fn, w, dir, node) })
		if m != nil {
			fields(m, w, -1, []byte{0, 0, 0, 0})
			wb := r.Intn(2)
			m2 := judge("SetWaitBit", w != 2 || wb == 0 || fn%2 == 1, func() *ast.DataMessage { return m.SetWaitBit(wb == 1) })
			w2 := w
			if w == 2 {
				w2 = wb
			}
			if m2 != nil {
				fields(m2, w2, -1, []byte{0, 0, 0, 0})
				m3 := judge("SetSessionIDAndSystemBytes", session >= -1 && session < 65536, func() *ast.DataMessage { return m2.SetSessionIDAndSystemBytes(session, sys) })
				if m3 != nil {
					fields(m3, w2, session, sys)
					sv := append([]byte(nil), sys...)
					sys[0] ^= 0xFF
					fields(m3, w2, session, sv)
					sys[0] ^= 0xFF
				}
				fields(m2, w2, -1, []byte{0, 0, 0, 0})
			}
			fields(m, w, -1, []byte{0, 0, 0, 0})
		}
		m = judge("NewHSMSDataMessage", okBase && (w == 0 || w == 1) && session >= 0 && session < 65536, func() *ast.DataMessage {
			return ast.NewHSMSDataMessage(name, stream, fn, w, dir, node, session, sys)
		})
		if m != nil {
			sv := append([]byte(nil), sys...)
			fields(m, w, session, sv)
			sys[1] ^= 0x55
			fields(m, w, session, sv)
		}
		for _, v := range []ast.ItemNode{ast.NewListNode(node, ast.NewUintNode(1, 3, "v")), ast.NewASCIINodeVariable("v", 0, -1), ast.NewListNode("v"), ast.NewListNode(ast.NewBooleanNode("v"), "...")} {
			v := v
			judge("NewHSMSDataMessage of an item with variables", false, func() *ast.DataMessage {
				return ast.NewHSMSDataMessage(name, stream, fn, w, dir, v, session, sys)
			})
		}
		c.Case(d, true)
		c.Count("factory_calls", 2)
	}
}

// snapshot of everything observable about an item
func snap(n ast.ItemNode) string {
	return fmt.Sprintf("%s|%s|%v|%d|%x|%s", n.Type(), str(n), n.Variables(), n.Size(), n.ToBytes(), deepVals(n))
}

func deepVals(n ast.ItemNode) string {
	v := n.Values()
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Slice && n.Type() == "list" {
		s := "("
		for _, ch := range v.([]ast.ItemNode) {
			s += deepVals(ch) + " "
		}
		return s + ")"
	}
	return fmt.Sprint(v)
}

// Operations on an item or message leave it and its parts as they were.
func p08Immutable(c *mon.Ctx) {
	n := c.N(1500, 40000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("immut-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		t := genTpl(r, &tplGen{ell: true}, 3)
		node := t.build()
		before := snap(node)
		msg := ast.NewDataMessage("M", 6, 11, 2, "H->E", node)
		mBefore := msg.String()
		ops := ""
		pv, st := mon.Recover(func() {
			for k := 0; k < 6; k++ {
				switch r.Intn(7) {
				case 0:
					ops += "fill "
					node.FillVariables(fillAll(r, t, node))
				case 1:
					ops += "fillsome "
					vals := fillAll(r, t, node)
					for n := range vals {
						if r.Intn(2) == 0 {
							delete(vals, n)
						}
					}
					node.FillVariables(vals)
				case 2:
					ops += "bytes "
					b := node.ToBytes()
					for j := range b {
						b[j] ^= 0xFF
					}
				case 3:
					ops += "wait "
					msg.SetWaitBit(true)
				case 4:
					ops += "session "
					m := msg.SetSessionIDAndSystemBytes(5, []byte{1, 2, 3, 4}).SetWaitBit(false)
					f := m.FillVariables(fillAll(r, t, node))
					b1 := f.ToBytes()
					b2 := append([]byte(nil), b1...)
					for j := range b1 {
						b1[j] ^= 0xFF
					}
					if !bytes.Equal(f.ToBytes(), b2) {
						c.Violate("encoding-aliased", ops, "%s: writing into the returned bytes changed the message", label)
					}
				case 5:
					ops += "vars "
					vs := node.Variables()
					for j := range vs {
						vs[j] = "x"
					}
				case 6:
					ops += "list "
					ast.NewListNode(node, ast.NewASCIINode("x")).FillVariables(fillAll(r, t, node))
				}
				if s := snap(node); s != before {
					c.Violate("item-changed", ops, "%s: after %s the item changed from\n%s\nto\n%s", label, ops, before, s)
					return
				}
				if s := msg.String(); s != mBefore || msg.WaitBit() != "optional" || msg.SessionID() != -1 {
					c.Violate("message-changed", ops, "%s: after %s the message changed", label, ops)
					return
				}
			}
		})
		if pv != nil {
			c.Violate("operation-panics", ops, "%s: %s on %s: %v\n%s", label, ops, before, pv, st)
		}
		c.Case(label+before, len(node.Variables()) > 0)
	})
	// arguments given to a factory may be reused by the caller
	for i := 0; i < 200; i++ {
		r := c.Rng("alias-" + strconv.Itoa(i))
		args := []interface{}{1, "v", 2}
		for _, fs := range fmtSpecs() {
			if fs.k == ref.BOOL {
				continue
			}
			n := fs.build(args...)
			b := snap(n)
			args[0], args[1], args[2] = 9, 9, "w"
			if snap(n) != b {
				c.Violate("item-changed", fs.name, "%s: reusing the argument slice changed the item", fs.name)
			}
			args[0], args[1], args[2] = 1, "v", 2
		}
		in := []interface{}{ast.NewASCIINode("a"), "v"}
		l := ast.NewListNode(in...)
		b := snap(l)
		in[0], in[1] = ast.NewASCIINode("zz"), ast.NewListNode()
		if snap(l) != b {
			c.Violate("item-changed", nil, "list: reusing the argument slice changed the item")
		}
		_ = r
	}
}
