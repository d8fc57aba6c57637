// Package ref is an independent reference implementation of SECS-II items (SEMI E5) and HSMS
// framing (SEMI E37), written from the standards' encoding rules and not from the code under test.
package ref

import (
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

type Kind int

const (
	None Kind = iota // header-only message: no item at all
	L
	B
	BOOL
	A
	I1
	I2
	I4
	I8
	U1
	U2
	U4
	U8
	F4
	F8
)

var names = map[Kind]string{None: "none", L: "L", B: "B", BOOL: "BOOLEAN", A: "A", I1: "I1", I2: "I2", I4: "I4", I8: "I8", U1: "U1", U2: "U2", U4: "U4", U8: "U8", F4: "F4", F8: "F8"}
var codes = map[Kind]byte{L: 0o00, B: 0o10, BOOL: 0o11, A: 0o20, I8: 0o30, I1: 0o31, I2: 0o32, I4: 0o34, F8: 0o40, F4: 0o44, U8: 0o50, U1: 0o51, U2: 0o52, U4: 0o54}
var byCode = map[byte]Kind{}
var Width = map[Kind]int{B: 1, BOOL: 1, A: 1, I1: 1, I2: 2, I4: 4, I8: 8, U1: 1, U2: 2, U4: 4, U8: 8, F4: 4, F8: 8}

func init() {
	for k, c := range codes {
		byCode[c] = k
	}
}

func (k Kind) String() string { return names[k] }

// Item is a SECS-II item. Scalars are held as raw element words, so equality is bit equality.
type Item struct {
	K     Kind
	List  []Item
	Words []uint64 // element bit patterns, zero-extended to the element width
}

func Lst(items ...Item) Item { return Item{K: L, List: items} }
func Asc(s string) Item {
	it := Item{K: A}
	for i := 0; i < len(s); i++ {
		it.Words = append(it.Words, uint64(s[i]))
	}
	return it
}
func Bin(bs ...byte) Item {
	it := Item{K: B}
	for _, b := range bs {
		it.Words = append(it.Words, uint64(b))
	}
	return it
}
func Bool(bs ...bool) Item {
	it := Item{K: BOOL}
	for _, b := range bs {
		w := uint64(0)
		if b {
			w = 1
		}
		it.Words = append(it.Words, w)
	}
	return it
}
func mask(k Kind) uint64 {
	if Width[k] == 8 {
		return ^uint64(0)
	}
	return 1<<(8*Width[k]) - 1
}
func Uint(k Kind, vs ...uint64) Item {
	it := Item{K: k}
	for _, v := range vs {
		it.Words = append(it.Words, v&mask(k))
	}
	return it
}
func Int(k Kind, vs ...int64) Item {
	it := Item{K: k}
	for _, v := range vs {
		it.Words = append(it.Words, uint64(v)&mask(k))
	}
	return it
}
func Float(k Kind, vs ...float64) Item {
	it := Item{K: k}
	for _, v := range vs {
		if k == F4 {
			it.Words = append(it.Words, uint64(math.Float32bits(float32(v))))
		} else {
			it.Words = append(it.Words, math.Float64bits(v))
		}
	}
	return it
}

func (it Item) Str() string {
	var sb strings.Builder
	for _, w := range it.Words {
		sb.WriteByte(byte(w))
	}
	return sb.String()
}

// SignedAt returns element i as a signed integer.
func (it Item) SignedAt(i int) int64 {
	sh := 64 - 8*Width[it.K]
	return int64(it.Words[i]<<sh) >> sh
}
func (it Item) FloatAt(i int) float64 {
	if it.K == F4 {
		return float64(math.Float32frombits(uint32(it.Words[i])))
	}
	return math.Float64frombits(it.Words[i])
}

func (it Item) IsInt() bool  { return it.K >= I1 && it.K <= I8 }
func (it Item) IsUint() bool { return it.K >= U1 && it.K <= U8 }

func Equal(a, b Item) bool {
	if a.K != b.K || len(a.List) != len(b.List) || len(a.Words) != len(b.Words) {
		return false
	}
	for i := range a.Words {
		if a.Words[i] != b.Words[i] {
			if a.K == BOOL && (a.Words[i] != 0) == (b.Words[i] != 0) {
				continue
			}
			return false
		}
	}
	for i := range a.List {
		if !Equal(a.List[i], b.List[i]) {
			return false
		}
	}
	return true
}

func (it Item) String() string {
	var sb strings.Builder
	it.str(&sb)
	s := sb.String()
	if len(s) > 700 {
		s = s[:700] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}
func (it Item) str(sb *strings.Builder) {
	if sb.Len() > 1400 {
		return
	}
	switch it.K {
	case None:
		sb.WriteString("<none>")
	case L:
		fmt.Fprintf(sb, "<L[%d]", len(it.List))
		for _, c := range it.List {
			sb.WriteByte(' ')
			c.str(sb)
		}
		sb.WriteByte('>')
	case A:
		if len(it.Words) > 60 {
			fmt.Fprintf(sb, "<A[%d] %q..>", len(it.Words), it.Str()[:60])
		} else {
			fmt.Fprintf(sb, "<A[%d] %q>", len(it.Words), it.Str())
		}
	default:
		fmt.Fprintf(sb, "<%s[%d]", it.K, len(it.Words))
		for i := range it.Words {
			if i > 20 {
				sb.WriteString(" ..")
				break
			}
			switch {
			case it.IsInt():
				fmt.Fprintf(sb, " %d", it.SignedAt(i))
			case it.K == F4 || it.K == F8:
				fmt.Fprintf(sb, " %g", it.FloatAt(i))
			default:
				fmt.Fprintf(sb, " %d", it.Words[i])
			}
		}
		sb.WriteByte('>')
	}
}

// Encode gives the E5 encoding with the minimal number of length bytes (1..3).
func Encode(it Item) []byte { return appendItem(nil, it, 0) }

// EncodeN forces at least n length bytes for every item (also valid per E5).
func EncodeN(it Item, n int) []byte { return appendItem(nil, it, n) }

func appendHead(b []byte, k Kind, n int, min int) []byte {
	lb := 1
	if n > 0xFF {
		lb = 2
	}
	if n > 0xFFFF {
		lb = 3
	}
	if lb < min {
		lb = min
	}
	b = append(b, codes[k]<<2|byte(lb))
	for i := lb - 1; i >= 0; i-- {
		b = append(b, byte(n>>(8*i)))
	}
	return b
}

func appendItem(b []byte, it Item, min int) []byte {
	if it.K == None {
		return b
	}
	if it.K == L {
		b = appendHead(b, L, len(it.List), min)
		for _, c := range it.List {
			b = appendItem(b, c, min)
		}
		return b
	}
	w := Width[it.K]
	b = appendHead(b, it.K, len(it.Words)*w, min)
	for _, v := range it.Words {
		for i := w - 1; i >= 0; i-- {
			b = append(b, byte(v>>(8*i)))
		}
	}
	return b
}

var ErrShort = errors.New("truncated item")
var ErrFormat = errors.New("unsupported item format code")
var ErrLenBytes = errors.New("zero length bytes")
var ErrMultiple = errors.New("length not a multiple of the element size")
var ErrTrailing = errors.New("bytes after the item")
var ErrDepth = errors.New("nesting too deep")

// DecodeOne decodes one item and returns the rest.
func DecodeOne(b []byte) (Item, []byte, error) { return decodeOne(b, 0) }

func decodeOne(b []byte, depth int) (Item, []byte, error) {
	if depth > 5000 {
		return Item{}, b, ErrDepth
	}
	if len(b) == 0 {
		return Item{}, b, ErrShort
	}
	lb := int(b[0] & 3)
	if lb == 0 {
		return Item{}, b, ErrLenBytes
	}
	k, known := byCode[b[0]>>2]
	if len(b) < 1+lb {
		return Item{}, b, ErrShort
	}
	n := 0
	for _, c := range b[1 : 1+lb] {
		n = n<<8 | int(c)
	}
	b = b[1+lb:]
	if !known {
		return Item{}, b, ErrFormat
	}
	if k == L {
		it := Item{K: L}
		for i := 0; i < n; i++ {
			var c Item
			var err error
			c, b, err = decodeOne(b, depth+1)
			if err != nil {
				return Item{}, b, err
			}
			it.List = append(it.List, c)
		}
		return it, b, nil
	}
	w := Width[k]
	if n%w != 0 {
		return Item{}, b, ErrMultiple
	}
	if len(b) < n {
		return Item{}, b, ErrShort
	}
	it := Item{K: k}
	for i := 0; i < n; i += w {
		var v uint64
		for _, c := range b[i : i+w] {
			v = v<<8 | uint64(c)
		}
		it.Words = append(it.Words, v)
	}
	return it, b[n:], nil
}

// DecodeBody decodes a message text: nothing, or exactly one item.
func DecodeBody(b []byte) (Item, error) {
	if len(b) == 0 {
		return Item{K: None}, nil
	}
	it, rest, err := DecodeOne(b)
	if err != nil {
		return it, err
	}
	if len(rest) != 0 {
		return it, ErrTrailing
	}
	return it, nil
}

// NonASCII reports whether some ASCII item holds a byte above 0x7F; NonFinite whether some float
// is NaN or infinite. Both are legal bit patterns on the wire that the library documents it does
// not support.
func (it Item) NonASCII() bool {
	if it.K == A {
		for _, w := range it.Words {
			if w > 0x7F {
				return true
			}
		}
	}
	for _, c := range it.List {
		if c.NonASCII() {
			return true
		}
	}
	return false
}
func (it Item) NonFinite() bool {
	if it.K == F4 || it.K == F8 {
		for i := range it.Words {
			f := it.FloatAt(i)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return true
			}
		}
	}
	for _, c := range it.List {
		if c.NonFinite() {
			return true
		}
	}
	return false
}
func (it Item) Depth() int {
	d := 0
	for _, c := range it.List {
		if x := c.Depth(); x > d {
			d = x
		}
	}
	return d + 1
}
func (it Item) Count() int {
	n := 1
	for _, c := range it.List {
		n += c.Count()
	}
	return n
}

// ToAST builds the item through the public factories.
func ToAST(it Item) ast.ItemNode {
	switch it.K {
	case None:
		return ast.NewEmptyItemNode()
	case L:
		vs := make([]interface{}, len(it.List))
		for i, c := range it.List {
			vs[i] = ToAST(c)
		}
		return ast.NewListNode(vs...)
	case A:
		return ast.NewASCIINode(it.Str())
	}
	vs := make([]interface{}, len(it.Words))
	for i, w := range it.Words {
		switch {
		case it.K == B:
			vs[i] = int(w)
		case it.K == BOOL:
			vs[i] = w != 0
		case it.IsInt():
			vs[i] = it.SignedAt(i)
		case it.IsUint():
			vs[i] = w
		default:
			vs[i] = it.FloatAt(i)
		}
	}
	switch it.K {
	case B:
		return ast.NewBinaryNode(vs...)
	case BOOL:
		return ast.NewBooleanNode(vs...)
	case F4, F8:
		return ast.NewFloatNode(Width[it.K], vs...)
	}
	if it.IsInt() {
		return ast.NewIntNode(Width[it.K], vs...)
	}
	return ast.NewUintNode(Width[it.K], vs...)
}

// FromAST reads an item back through the public accessors.
func FromAST(n ast.ItemNode) (it Item, err error) {
	if n == nil {
		return it, errors.New("nil node")
	}
	if len(n.Variables()) != 0 {
		return it, fmt.Errorf("node holds variables %v", n.Variables())
	}
	switch v := n.(type) {
	case *ast.ListNode:
		it.K = L
		for i := 0; i < v.Size(); i++ {
			c, err := v.Get(i)
			if err != nil {
				return it, err
			}
			ci, err := FromAST(c)
			if err != nil {
				return it, err
			}
			it.List = append(it.List, ci)
		}
		return it, nil
	case *ast.ASCIINode:
		s, ok := v.Values().(string)
		if !ok {
			return it, fmt.Errorf("ascii values %T", v.Values())
		}
		return Asc(s), nil
	case *ast.BinaryNode:
		it.K = B
		xs, ok := v.Values().([]int)
		if !ok {
			return it, fmt.Errorf("binary values %T", v.Values())
		}
		for _, x := range xs {
			if x < 0 || x > 255 {
				return it, fmt.Errorf("binary value %d", x)
			}
			it.Words = append(it.Words, uint64(x))
		}
		return it, nil
	case *ast.BooleanNode:
		xs, ok := v.Values().([]bool)
		if !ok {
			return it, fmt.Errorf("boolean values %T", v.Values())
		}
		return Bool(xs...), nil
	case *ast.IntNode:
		k, err := kindOf(n.Type())
		if err != nil {
			return it, err
		}
		xs, ok := v.Values().([]int64)
		if !ok {
			return it, fmt.Errorf("int values %T", v.Values())
		}
		it = Int(k, xs...)
		for i, x := range xs {
			if it.SignedAt(i) != x {
				return it, fmt.Errorf("%s holds %d", k, x)
			}
		}
		return it, nil
	case *ast.UintNode:
		k, err := kindOf(n.Type())
		if err != nil {
			return it, err
		}
		xs, ok := v.Values().([]uint64)
		if !ok {
			return it, fmt.Errorf("uint values %T", v.Values())
		}
		it = Uint(k, xs...)
		for i, x := range xs {
			if it.Words[i] != x {
				return it, fmt.Errorf("%s holds %d", k, x)
			}
		}
		return it, nil
	case *ast.FloatNode:
		k, err := kindOf(n.Type())
		if err != nil {
			return it, err
		}
		xs, ok := v.Values().([]float64)
		if !ok {
			return it, fmt.Errorf("float values %T", v.Values())
		}
		return Float(k, xs...), nil
	}
	if n.Type() == "empty" {
		return Item{K: None}, nil
	}
	return it, fmt.Errorf("unknown node %T", n)
}

func kindOf(t string) (Kind, error) {
	m := map[string]Kind{"i1": I1, "i2": I2, "i4": I4, "i8": I8, "u1": U1, "u2": U2, "u4": U4, "u8": U8, "f4": F4, "f8": F8}
	if k, ok := m[t]; ok {
		return k, nil
	}
	return None, fmt.Errorf("type %q", t)
}

// ---- HSMS messages ----

type Msg struct {
	Session      uint16
	Byte2, Byte3 byte // data: W|stream, function
	PType, SType byte
	Sys          uint32
	Text         []byte
}

const (
	Data        = 0
	SelectReq   = 1
	SelectRsp   = 2
	DeselectReq = 3
	DeselectRsp = 4
	LinktestReq = 5
	LinktestRsp = 6
	RejectReq   = 7
	SeparateReq = 9
)

func (m Msg) Stream() int   { return int(m.Byte2 & 0x7F) }
func (m Msg) Function() int { return int(m.Byte3) }
func (m Msg) W() bool       { return m.Byte2&0x80 != 0 }
func (m Msg) Header() []byte {
	b := m.Bytes()
	return b[4:14]
}
func (m Msg) Bytes() []byte {
	b := make([]byte, 14, 14+len(m.Text))
	binary.BigEndian.PutUint32(b, uint32(10+len(m.Text)))
	binary.BigEndian.PutUint16(b[4:], m.Session)
	b[6], b[7], b[8], b[9] = m.Byte2, m.Byte3, m.PType, m.SType
	binary.BigEndian.PutUint32(b[10:], m.Sys)
	return append(b, m.Text...)
}
func (m Msg) Item() (Item, error) { return DecodeBody(m.Text) }
func (m Msg) String() string {
	if m.SType != Data || m.PType != 0 {
		return fmt.Sprintf("ctrl{sess=%04x b2=%02x b3=%02x p=%d s=%d sys=%08x len=%d}", m.Session, m.Byte2, m.Byte3, m.PType, m.SType, m.Sys, len(m.Text))
	}
	it, err := m.Item()
	body := it.String()
	if err != nil {
		h := hex.EncodeToString(m.Text)
		if len(h) > 80 {
			h = h[:80] + ".."
		}
		body = "raw:" + h
	}
	w := ""
	if m.W() {
		w = " W"
	}
	return fmt.Sprintf("S%dF%d%s sess=%d sys=%08x %s", m.Stream(), m.Function(), w, m.Session, m.Sys, body)
}

// ParseMsg reads one frame (length bytes included).
func ParseMsg(b []byte) (Msg, error) {
	if len(b) < 14 {
		return Msg{}, errors.New("short frame")
	}
	n := binary.BigEndian.Uint32(b)
	if int(n) != len(b)-4 {
		return Msg{}, errors.New("length field differs from frame length")
	}
	return Msg{Session: binary.BigEndian.Uint16(b[4:]), Byte2: b[6], Byte3: b[7], PType: b[8], SType: b[9],
		Sys: binary.BigEndian.Uint32(b[10:]), Text: append([]byte(nil), b[14:]...)}, nil
}

func DataMsg(session uint16, stream, function int, w bool, sys uint32, it Item) Msg {
	b2 := byte(stream & 0x7F)
	if w {
		b2 |= 0x80
	}
	return Msg{Session: session, Byte2: b2, Byte3: byte(function), Sys: sys, Text: Encode(it)}
}
func Ctrl(stype byte, session uint16, sys uint32) Msg {
	return Msg{Session: session, SType: stype, Sys: sys}
}

// ---- generators ----

var scalarKinds = []Kind{B, BOOL, A, I1, I2, I4, I8, U1, U2, U4, U8, F4, F8}

// GenWord picks an element with a bias to boundary patterns.
func GenWord(r *rand.Rand, k Kind) uint64 {
	m := mask(k)
	switch k {
	case BOOL:
		return uint64(r.Intn(2))
	case A:
		switch r.Intn(6) {
		case 0:
			return uint64(r.Intn(0x20))
		case 1:
			return uint64(`"\<>[]'.0x/*`[r.Intn(12)])
		case 2:
			return 0x7F
		}
		return uint64(0x20 + r.Intn(0x5F))
	case F4, F8:
		switch r.Intn(5) {
		case 0:
			fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-30, 123456.789}
			return Float(k, fs[r.Intn(len(fs))]).Words[0]
		case 1:
			if k == F8 {
				fs := []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, math.Pi}
				return Float(k, fs[r.Intn(len(fs))]).Words[0]
			}
		}
		for {
			w := r.Uint64() & m
			it := Item{K: k, Words: []uint64{w}}
			if !it.NonFinite() {
				return w
			}
		}
	}
	switch r.Intn(5) {
	case 0:
		bs := []uint64{0, 1, m, m >> 1, m>>1 + 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32}
		return bs[r.Intn(len(bs))] & m
	case 1:
		return uint64(r.Intn(300)) & m
	}
	return r.Uint64() & m
}

// Gen builds a random item tree with at most about size nodes.
func Gen(r *rand.Rand, depth, size int) Item {
	if depth > 0 && r.Intn(3) > 0 {
		n := r.Intn(6)
		if r.Intn(20) == 0 {
			n = r.Intn(40)
		}
		if n > size {
			n = size
		}
		it := Item{K: L}
		for i := 0; i < n; i++ {
			it.List = append(it.List, Gen(r, depth-1, size/(n+1)))
		}
		return it
	}
	return GenScalar(r, genLen(r))
}

func genLen(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return 1
	case 5:
		return r.Intn(300)
	}
	return r.Intn(12)
}

func GenScalar(r *rand.Rand, n int) Item {
	k := scalarKinds[r.Intn(len(scalarKinds))]
	return GenKind(r, k, n)
}

func GenKind(r *rand.Rand, k Kind, n int) Item {
	it := Item{K: k}
	for i := 0; i < n; i++ {
		it.Words = append(it.Words, GenWord(r, k))
	}
	return it
}

func ScalarKinds() []Kind { return scalarKinds }

// Normal returns the item with BOOLEAN elements reduced to 0/1, the form an encoder writes.
func (it Item) Normal() Item {
	out := Item{K: it.K, Words: it.Words}
	if it.K == BOOL {
		out.Words = make([]uint64, len(it.Words))
		for i, w := range it.Words {
			if w != 0 {
				out.Words[i] = 1
			}
		}
	}
	for _, ch := range it.List {
		out.List = append(out.List, ch.Normal())
	}
	return out
}
