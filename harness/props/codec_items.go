package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	hp "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{
		ID: "P01", Run: p01,
		Rule: "item trees generated from the seed plus a fixed ladder of element counts around every length-byte boundary for every item format; a case is non-trivial when the message holds at least one item; distinct by encoded bytes",
		Assume: []string{"the reference encoder in harness/ref follows SEMI E5 section 9 (format byte, 1-3 length bytes, big-endian elements)",
			"floats are finite and ASCII is 7-bit: the library documents NaN/Inf and non-ASCII text as unsupported"},
	})
	reg(&mon.Check{
		ID: "P02", Run: p02,
		Rule:   "frames: valid frames from the generator, all single-field mutations of them (length, format byte, length bytes, truncation, extension, bit flips), random bytes, and size bombs; verdict and value compared with the reference decoder; non-trivial when the frame has a well-formed 14-byte prefix; distinct by bytes",
		Assume: []string{"reference decoder accepts exactly the E5 formats the library documents (no JIS-8, no Unicode, 7-bit ASCII, finite floats)"},
	})
}

// boundary element counts: around the 1/2/3-length-byte switches, in bytes and in elements.
func ladder(k ref.Kind, thorough bool) []int {
	w := ref.Width[k]
	if w == 0 {
		w = 1
	}
	set := map[int]bool{}
	for _, n := range []int{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 65535, 65536, 65537} {
		set[n] = true
	}
	for _, b := range []int{255, 256, 65535, 65536, 131072, 200000} {
		for d := -1; d <= 1; d++ {
			if n := b/w + d; n >= 0 {
				set[n] = true
			}
		}
	}
	if thorough {
		set[1<<20/w] = true
		set[1<<23/w] = true
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

type hdr struct {
	session  int
	stream   int
	function int
	w        bool
	sys      uint32
}

func genHdr(r *rand.Rand) hdr {
	h := hdr{session: r.Intn(65536), stream: r.Intn(128), function: r.Intn(256), w: r.Intn(2) == 0, sys: r.Uint32()}
	switch r.Intn(4) {
	case 0:
		h.session = []int{0, 1, 32767, 32768, 65535}[r.Intn(5)]
	case 1:
		h.sys = []uint32{0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x00FF00FF}[r.Intn(6)]
	}
	if h.function%2 == 0 {
		h.w = false
	}
	return h
}

func sysBytes(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// checkMsgRoundTrip is the P01 oracle for one message.
func checkMsgRoundTrip(c *mon.Ctx, label string, h hdr, it ref.Item) {
	want := ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, it).Bytes()
	c.Case(string(want), it.K != ref.None)
	wb := 0
	if h.w {
		wb = 1
	}
	desc := func() string {
		return fmt.Sprintf("%s: S%dF%d W=%v session=%d sys=%08x item %s", label, h.stream, h.function, h.w, h.session, h.sys, it)
	}
	replay := func() any {
		s := hex.EncodeToString(want)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		return map[string]any{"frame": s, "item": it.String()}
	}
	var node ast.ItemNode
	if pv, st := mon.Recover(func() { node = ref.ToAST(it) }); pv != nil {
		c.Violate("factory-rejects-valid", replay(), "%s: building the item panicked: %v\n%s", desc(), pv, st)
		return
	}
	var got []byte
	var viaSet []byte
	if pv, st := mon.Recover(func() {
		got = ast.NewHSMSDataMessage("", h.stream, h.function, wb, "H<->E", node, h.session, sysBytes(h.sys)).ToBytes()
		viaSet = ast.NewDataMessage("n", h.stream, h.function, wb, "H->E", node).SetSessionIDAndSystemBytes(h.session, sysBytes(h.sys)).ToBytes()
	}); pv != nil {
		c.Violate("encode-panics", replay(), "%s: encoding panicked: %v\n%s", desc(), pv, st)
		return
	}
	if !bytes.Equal(got, want) {
		c.Violate("encode-differs", replay(), "%s: ToBytes differs from the E5/E37 encoding: %s", desc(), byteDiff(got, want))
		return
	}
	if !bytes.Equal(viaSet, want) {
		c.Violate("encode-differs-set", replay(), "%s: NewDataMessage+SetSessionIDAndSystemBytes encodes differently: %s", desc(), byteDiff(viaSet, want))
	}
	if nb := node.ToBytes(); !bytes.Equal(nb, want[14:]) {
		c.Violate("item-encode-differs", replay(), "%s: item ToBytes differs from message text: %s", desc(), byteDiff(nb, want[14:]))
	}
	checkDecode(c, "decode", desc, replay, want, h, it)
	// every legal length-byte count decodes to the same value
	for n := 2; n <= 3; n++ {
		m := ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, it)
		m.Text = ref.EncodeN(it, n)
		if len(m.Text) == len(want)-14 {
			continue
		}
		c.Count("non_minimal_length_forms", 1)
		checkDecode(c, "decode-nonminimal", desc, replay, m.Bytes(), h, it)
	}
}

func checkDecode(c *mon.Ctx, key string, desc func() string, replay func() any, frame []byte, h hdr, it ref.Item) {
	in := append([]byte(nil), frame...)
	msg, ok := hp.Parse(in)
	if !ok {
		c.Violate(key+"-rejects", replay(), "%s: Parse rejects a well-formed frame (%d bytes, %s)", desc(), len(frame), headHex(frame))
		return
	}
	dm, isData := msg.(*ast.DataMessage)
	if !isData || msg.Type() != "data message" {
		c.Violate(key+"-type", replay(), "%s: Parse gives %T of type %q", desc(), msg, msg.Type())
		return
	}
	// the decoded value must not depend on the input buffer any more
	for i := range in {
		in[i] ^= 0xA5
	}
	wb := "false"
	if h.w {
		wb = "true"
	}
	if dm.StreamCode() != h.stream || dm.FunctionCode() != h.function || dm.WaitBit() != wb || dm.SessionID() != h.session || !bytes.Equal(dm.SystemBytes(), sysBytes(h.sys)) {
		c.Violate(key+"-header", replay(), "%s: decoded header S%dF%d W=%s session=%d sys=%x", desc(), dm.StreamCode(), dm.FunctionCode(), dm.WaitBit(), dm.SessionID(), dm.SystemBytes())
		return
	}
	n, err := dm.Get()
	if err != nil {
		c.Violate(key+"-get", replay(), "%s: Get() fails: %v", desc(), err)
		return
	}
	back, err := ref.FromAST(n)
	if err != nil {
		c.Violate(key+"-value", replay(), "%s: decoded item unreadable: %v", desc(), err)
		return
	}
	if !ref.Equal(back, it) {
		c.Violate(key+"-value", replay(), "%s: decoded to %s", desc(), back)
		return
	}
	it = it.Normal()
	if re := dm.ToBytes(); !bytes.Equal(re, ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, it).Bytes()) {
		c.Violate(key+"-reencode", replay(), "%s: re-encoding the decoded message gives %s", desc(), byteDiff(re, frame))
	}
	c.Count("decoded_and_compared", 1)
}

func headHex(b []byte) string {
	if len(b) > 40 {
		b = b[:40]
	}
	return hex.EncodeToString(b)
}

func byteDiff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) string {
		lo, hi := i-4, i+12
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return hex.EncodeToString(b[lo:hi])
	}
	return fmt.Sprintf("lengths %d vs expected %d, first difference at byte %d: got ..%s.. expected ..%s..", len(got), len(want), i, cut(got), cut(want))
}

func p01(c *mon.Ctx) {
	// 1. ladder of sizes for every format
	r := c.Rng("ladder")
	for _, k := range ref.ScalarKinds() {
		for _, n := range ladder(k, c.Thorough()) {
			it := ref.GenKind(r, k, n)
			checkMsgRoundTrip(c, fmt.Sprintf("ladder %s[%d]", k, n), genHdr(r), it)
			if n < 1000 {
				checkMsgRoundTrip(c, "ladder in list", genHdr(r), ref.Lst(ref.Asc("x"), it, ref.Lst(it, ref.Uint(ref.U2, 7))))
			}
			c.Max("largest_item_elements", n)
		}
	}
	for _, n := range ladder(ref.L, false) {
		if n > 70000 && n != 131072 && !c.Thorough() {
			continue
		}
		it := ref.Item{K: ref.L}
		for i := 0; i < n; i++ {
			it.List = append(it.List, ref.Uint(ref.U1, uint64(i)))
		}
		checkMsgRoundTrip(c, fmt.Sprintf("list of %d", n), genHdr(r), it)
		if n > 0 && n < 5000 { // with empty items of every format in between
			for _, i := range r.Perm(n)[:1+n/3] {
				it.List[i] = ref.Item{K: append(ref.ScalarKinds(), ref.L)[r.Intn(1+len(ref.ScalarKinds()))]}
			}
			checkMsgRoundTrip(c, fmt.Sprintf("list of %d with empty items", n), genHdr(r), it)
			for i := range it.List {
				it.List[i] = ref.Item{K: ref.L}
			}
			checkMsgRoundTrip(c, fmt.Sprintf("list of %d empty lists", n), genHdr(r), it)
		}
	}
	// 2. every header combination class
	for s := 0; s < 128; s++ {
		for f := 0; f < 256; f += 1 + r.Intn(3) {
			h := hdr{session: r.Intn(65536), stream: s, function: f, w: f%2 == 1 && r.Intn(2) == 0, sys: r.Uint32()}
			it := ref.Item{K: ref.None}
			if r.Intn(2) == 0 {
				it = ref.GenScalar(r, r.Intn(3))
			}
			checkMsgRoundTrip(c, "header", h, it)
		}
	}
	// 3. every element value of the 1-byte formats, every position
	for _, k := range []ref.Kind{ref.B, ref.U1, ref.I1, ref.A, ref.BOOL} {
		it := ref.Item{K: k}
		top := 256
		if k == ref.A {
			top = 128
		}
		if k == ref.BOOL {
			top = 2
		}
		for v := 0; v < top; v++ {
			it.Words = append(it.Words, uint64(v))
		}
		checkMsgRoundTrip(c, "all bytes", genHdr(r), it)
	}
	// 4. nesting
	for _, d := range []int{1, 2, 10, 50, 200} {
		it := ref.Asc("deep")
		for i := 0; i < d; i++ {
			it = ref.Lst(it)
		}
		checkMsgRoundTrip(c, fmt.Sprintf("depth %d", d), genHdr(r), it)
	}
	// 5. random trees
	n := c.N(4000, 200000)
	mon.Parallel(8, n, func(i int) {
		r := c.Rng(fmt.Sprint("tree", i))
		it := ref.Gen(r, 1+r.Intn(5), 60)
		if i < 3 {
			c.Sample(it.String())
		}
		c.Max("deepest_tree", it.Depth())
		checkMsgRoundTrip(c, fmt.Sprint("tree ", i), genHdr(r), it)
	})
	// 6. control messages: every factory, header bytes exact, decoded type and fields exact
	p01Control(c)
	// 7. messages that are not complete never encode
	p01Incomplete(c)
}

func p01Control(c *mon.Ctx) {
	r := c.Rng("control")
	types := map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}
	check := func(name string, m ast.HSMSMessage, want ref.Msg) {
		c.Case(name+string(want.Bytes()), true)
		c.Count("control_messages", 1)
		if !bytes.Equal(m.ToBytes(), want.Bytes()) {
			c.Violate("control-encode:"+name, hex.EncodeToString(m.ToBytes()), "%s encodes as %x, expected %x", name, m.ToBytes(), want.Bytes())
		}
		got, ok := hp.Parse(want.Bytes())
		if !ok {
			c.Violate("control-decode:"+name, hex.EncodeToString(want.Bytes()), "%s: Parse rejects %x", name, want.Bytes())
			return
		}
		cm, isC := got.(*ast.ControlMessage)
		if !isC || got.Type() != types[want.SType] || cm.SessionID() != want.Session || cm.Status() != want.Byte3 || !bytes.Equal(cm.SystemBytes(), sysBytes(want.Sys)) || !bytes.Equal(cm.ToBytes(), want.Bytes()) {
			c.Violate("control-decode:"+name, hex.EncodeToString(want.Bytes()), "%s decodes as %T %q %x", name, got, got.Type(), got.ToBytes())
		}
	}
	for i := 0; i < 400; i++ {
		s, y, st := uint16(r.Uint32()), r.Uint32(), byte(r.Intn(256))
		if i == 0 {
			s, y, st = 0xFFFF, 0xFFFFFFFF, 0
		}
		yb := sysBytes(y)
		sel := ast.NewHSMSMessageSelectReq(s, yb)
		des := ast.NewHSMSMessageDeselectReq(s, yb)
		lt := ast.NewHSMSMessageLinktestReq(yb)
		check("select.req", sel, ref.Ctrl(1, s, y))
		check("deselect.req", des, ref.Ctrl(3, s, y))
		check("linktest.req", lt, ref.Ctrl(5, 0xFFFF, y))
		check("separate.req", ast.NewHSMSMessageSeparateReq(s, yb), ref.Ctrl(9, s, y))
		check("select.rsp", ast.NewHSMSMessageSelectRsp(sel, st), ref.Msg{Session: s, Byte3: st, SType: 2, Sys: y})
		check("deselect.rsp", ast.NewHSMSMessageDeselectRsp(des, st), ref.Msg{Session: s, Byte3: st, SType: 4, Sys: y})
		check("linktest.rsp", ast.NewHSMSMessageLinktestRsp(lt), ref.Msg{Session: 0xFFFF, SType: 6, Sys: y})
		pt, sty, reason := byte(r.Intn(256)), byte(r.Intn(256)), byte(1+r.Intn(255))
		if i%4 == 0 {
			reason = byte(1 + i/4%4)
		}
		b2 := sty
		if reason == 2 {
			b2 = pt
		}
		sep := ast.NewHSMSMessageSeparateReq(s, yb)
		srsp := ast.NewHSMSMessageSelectRsp(sel, st)
		dm := ast.NewHSMSDataMessage("", r.Intn(128), r.Intn(256), 0, "H->E", ref.ToAST(ref.GenScalar(r, r.Intn(3))), int(s), yb)
		for k, m := range map[byte]ast.HSMSMessage{0: dm, 1: sel, 2: srsp, 3: des, 9: sep} {
			b2 := k
			if reason == 2 {
				b2 = 0 // the presentation type
			}
			check("reject.req from a message", ast.NewHSMSMessageRejectReqFromMsg(m, reason), ref.Msg{Session: s, Byte2: b2, Byte3: reason, SType: 7, Sys: y})
		}
		other := ref.Msg{Session: s, Byte2: st, Byte3: sty, PType: pt, SType: sty, Sys: y}
		ctl := ast.NewHSMSControlMessage(other.Bytes()[4:14])
		if !bytes.Equal(ctl.ToBytes(), other.Bytes()) {
			c.Violate("control-encode:raw", hex.EncodeToString(other.Bytes()), "a control message of header %x encodes as %x", other.Bytes()[4:14], ctl.ToBytes())
		}
		check("reject.req from a message", ast.NewHSMSMessageRejectReqFromMsg(ctl, reason), ref.Msg{Session: s, Byte2: b2, Byte3: reason, SType: 7, Sys: y})
		check("reject.req", ast.NewHSMSMessageRejectReq(s, pt, sty, yb, reason), ref.Msg{Session: s, Byte2: b2, Byte3: reason, SType: 7, Sys: y})
	}
}

func p01Incomplete(c *mon.Ctx) {
	sys := []byte{1, 2, 3, 4}
	full := ref.ToAST(ref.Lst(ref.Asc("a")))
	cases := map[string]*ast.DataMessage{
		"optional wait bit": ast.NewDataMessage("", 1, 1, 2, "H->E", full).SetSessionIDAndSystemBytes(1, sys),
		"no session":        ast.NewDataMessage("", 1, 1, 1, "H->E", full),
		"list variable":     ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewListNode("v")).SetSessionIDAndSystemBytes(1, sys),
		"nested variable":   ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewListNode(ast.NewListNode(ast.NewUintNode(1, 3, "v")))).SetSessionIDAndSystemBytes(1, sys),
		"ascii variable":    ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewASCIINodeVariable("v", 0, -1)).SetSessionIDAndSystemBytes(1, sys),
		"ellipsis":          ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewListNode(ast.NewUintNode(1, 3), "...")).SetSessionIDAndSystemBytes(1, sys),
		"binary variable":   ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewBinaryNode(1, "v")).SetSessionIDAndSystemBytes(1, sys),
		"boolean variable":  ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewBooleanNode(true, "v")).SetSessionIDAndSystemBytes(1, sys),
		"float variable":    ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewFloatNode(4, 1, "v")).SetSessionIDAndSystemBytes(1, sys),
		"int variable":      ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewIntNode(4, 1, "v")).SetSessionIDAndSystemBytes(1, sys),
	}
	for name, m := range cases {
		c.Case("incomplete "+name, true)
		if b := m.ToBytes(); len(b) != 0 {
			c.Violate("incomplete-encodes:"+name, hex.EncodeToString(b), "a message with %s encodes to %x instead of nothing", name, b)
		}
	}
	for _, wb := range []bool{true, false} {
		m := cases["optional wait bit"].SetWaitBit(wb)
		want := ref.DataMsg(1, 1, 1, wb, 0x01020304, ref.Lst(ref.Asc("a"))).Bytes()
		c.Case(fmt.Sprint("setwait ", wb), true)
		if !bytes.Equal(m.ToBytes(), want) {
			c.Violate("set-wait-bit", nil, "SetWaitBit(%v) encodes as %x, expected %x", wb, m.ToBytes(), want)
		}
	}
}

// ---- P02: decoder ----

// refVerdict says what the wire means by the reference: accept with a value, or reject.
func refVerdict(frame []byte) (m ref.Msg, it ref.Item, ok bool, why string) {
	m, err := ref.ParseMsg(frame)
	if err != nil {
		return m, it, false, err.Error()
	}
	if m.PType != 0 {
		return m, it, false, "PType"
	}
	switch m.SType {
	case ref.Data:
		it, err = m.Item()
		if err != nil {
			return m, it, false, err.Error()
		}
		if it.NonASCII() {
			return m, it, false, "non-ascii"
		}
		if it.NonFinite() {
			return m, it, false, "non-finite"
		}
		if m.W() && m.Function()%2 == 0 {
			return m, it, false, "wait bit on a reply function"
		}
		return m, it, true, ""
	case 1, 2, 3, 4, 5, 6, 7, 9:
		if len(m.Text) != 0 {
			return m, it, false, "control-text" // either verdict is fine
		}
		return m, it, true, ""
	}
	return m, it, false, "SType"
}

func p02One(c *mon.Ctx, label string, frame []byte) {
	m, it, want, why := refVerdict(frame)
	c.Case(string(frame), len(frame) >= 14)
	in := append([]byte(nil), frame...)
	var msg ast.HSMSMessage
	var ok bool
	rp := func() any {
		s := hex.EncodeToString(frame)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		return map[string]any{"frame": s, "case": label}
	}
	if pv, st := mon.Recover(func() { msg, ok = hp.Parse(in) }); pv != nil {
		c.Violate("parse-panics", rp(), "%s: Parse panicked on %s: %v\n%s", label, headHex(frame), pv, st)
		return
	}
	if !bytes.Equal(in, frame) {
		c.Violate("input-changed", rp(), "%s: Parse changed the bytes it was given: %s became %s", label, headHex(frame), headHex(in))
		return
	}
	if want && m.SType != ref.Data {
		c.Count("control_frames", 1)
	}
	if !want {
		c.Count("reference_rejects", 1)
		if ok && why != "control-text" {
			c.Violate("accepts-malformed:"+short(why), rp(), "%s: Parse accepts a malformed frame (%s): %s", label, why, headHex(frame))
		}
		return
	}
	c.Count("reference_accepts", 1)
	if !ok {
		c.Violate("rejects-wellformed", rp(), "%s: Parse rejects a well-formed frame %s (%s)", label, headHex(frame), m)
		return
	}
	if m.SType != ref.Data {
		if !bytes.Equal(msg.ToBytes(), frame) {
			c.Violate("control-value", rp(), "%s: control frame %x decoded as %x", label, frame, msg.ToBytes())
		}
		return
	}
	checkDecode(c, "decode", func() string { return label }, rp, frame, hdr{int(m.Session), m.Stream(), m.Function(), m.W(), m.Sys}, it)
}

func short(s string) string {
	b := []byte{}
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == ' ' {
			ch = '-'
		}
		b = append(b, ch)
	}
	return string(b)
}

// p02Work: the work of decoding grows with the input, not faster. For every shape the frame grows
// 64-fold; allocation is bounded per byte, and time must not grow 1000-fold (a quadratic decoder
// grows 4096-fold) - judged only when it is also far beyond anything a linear one needs. The nesting
// of the shapes stays moderate: the work per element may depend on its depth, which is limited.
func p02Work(c *mon.Ctx) {
	rep := func(n int, b ...byte) []byte { return bytes.Repeat(b, n) }
	list := func(n int, body []byte) []byte {
		return append([]byte{0x03, byte(n >> 16), byte(n >> 8), byte(n)}, body...)
	}
	arr := func(code byte, n, w int) []byte {
		return append([]byte{code | 3, byte(n * w >> 16), byte(n * w >> 8), byte(n * w)}, rep(n*w, 0x41)...)
	}
	shapes := map[string]func(n int) []byte{
		"list of empty items":    func(n int) []byte { return list(n, rep(n, 0x21, 0x00)) },
		"list of empty lists":    func(n int) []byte { return list(n, rep(n, 0x01, 0x00)) },
		"list of one-byte items": func(n int) []byte { return list(n, rep(n, 0xA5, 0x01, 0x07)) },
		"list of texts":          func(n int) []byte { return list(n, rep(n, 0x41, 0x02, 'a', 'b')) },
		"list of pairs":          func(n int) []byte { return list(n/4, rep(n/4, 0x01, 0x02, 0x41, 0x01, 'a', 0xA5, 0x01, 0x01)) },
		"text":                   func(n int) []byte { return arr(0x40, n, 1) },
		"bytes":                  func(n int) []byte { return arr(0x20, n, 1) },
		"numbers":                func(n int) []byte { return arr(0xA8, n/2, 2) },
		"floats":                 func(n int) []byte { return arr(0x80, n/8, 8) },
		"truncated list":         func(n int) []byte { return list(n+1, rep(n, 0x21, 0x00)) },
		"list with garbage":      func(n int) []byte { return append(list(n, rep(n, 0xA5, 0x01, 0x07)), 0) },
		"deep and wide": func(n int) []byte {
			d, b := 20, []byte{0x01, 0x00}
			for k := 0; k < d; k++ {
				m := n / d
				b = append(append([]byte{0x03, byte((m + 1) >> 16), byte((m + 1) >> 8), byte(m + 1)}, rep(m, 0x21, 0x00)...), b...)
			}
			return b
		},
		"wide groups of deep ones": func(n int) []byte {
			m := n / 20
			return list(m, bytes.Repeat(append(rep(19, 0x01, 0x01), 0x01, 0x00), m))
		},
	}
	const base, grow = 6000, 64
	for name, mk := range shapes {
		label := "work " + name
		if c.Skip(label) {
			continue
		}
		end := c.Begin(label)
		measure := func(n int, reps int) (time.Duration, uint64, int) {
			f := ref.Msg{Byte2: 1, Byte3: 1, Text: mk(n)}.Bytes()
			best := time.Duration(1 << 62)
			var used uint64
			for k := 0; k < reps; k++ {
				runtime.GC()
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				t := time.Now()
				mon.Recover(func() { hp.Parse(f) })
				if d := time.Since(t); d < best {
					best = d
				}
				runtime.ReadMemStats(&b)
				used = b.TotalAlloc - a.TotalAlloc
			}
			return best, used, len(f)
		}
		t1, _, _ := measure(base, 5)
		var t2 time.Duration
		var used uint64
		var size int
		if !mon.Within(4*mon.Hang, func() { t2, used, size = measure(base*grow, 2) }) {
			c.Violate("work-grows", label, "%s: decoding %d elements took %v, decoding %d has not ended after %v", name, base, t1, base*grow, 4*mon.Hang)
			end()
			continue
		}
		c.Case(label, true)
		c.Max("largest_frame_decoded", size)
		c.Max("most_bytes_allocated_per_input_byte", int(used/uint64(size)))
		if used > uint64(size)*1000+8<<20 {
			c.Violate("memory-grows", label, "%s: decoding a frame of %d bytes allocated %d bytes", name, size, used)
		}
		if t2 > 10*time.Second && t2 > 1000*t1 {
			c.Violate("work-grows", label, "%s: %d elements decode in %v, %d-fold as many take %v", name, base, t1, grow, t2)
		}
		end()
	}
}

func p02(c *mon.Ctx) {
	p02Work(c)
	// systematic mutations of a set of seed frames
	seeds := [][]byte{}
	r := c.Rng("seeds")
	for i := 0; i < c.N(150, 1500); i++ {
		h := genHdr(r)
		it := ref.Gen(r, r.Intn(4), 25)
		if i%10 == 0 {
			it = ref.Item{K: ref.None}
		}
		m := ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, it)
		if len(m.Text) > 400 {
			continue
		}
		if i%3 == 0 {
			m.Text = ref.EncodeN(it, 1+r.Intn(3))
		}
		seeds = append(seeds, m.Bytes())
	}
	for st := 0; st < 12; st++ {
		seeds = append(seeds, ref.Ctrl(byte(st), uint16(r.Uint32()), r.Uint32()).Bytes())
	}
	fix := func(b []byte) []byte { // repair the length field
		b = append([]byte(nil), b...)
		if len(b) >= 4 {
			n := len(b) - 4
			b[0], b[1], b[2], b[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
		}
		return b
	}
	mon.Parallel(8, len(seeds), func(i int) {
		if c.Broken() {
			return
		}
		f := seeds[i]
		l := fmt.Sprint("seed ", i)
		r := c.Rng(l)
		p02One(c, l, f)
		for n := 0; n < len(f); n++ { // every truncation, with and without a repaired length
			p02One(c, l+" truncated", f[:n])
			p02One(c, l+" truncated+fixed", fix(f[:n]))
		}
		for k := 1; k <= 4; k++ { // extensions
			ext := append(append([]byte(nil), f...), make([]byte, k)...)
			p02One(c, l+" extended", ext)
			p02One(c, l+" extended+fixed", fix(ext))
			ext2 := append(append([]byte(nil), f...), ref.Encode(ref.GenScalar(r, 1))...)
			p02One(c, l+" second item", fix(ext2))
		}
		for pos := 0; pos < len(f); pos++ { // byte mutations everywhere
			for _, v := range []byte{0, 1, 0x7F, 0x80, 0xFF, f[pos] ^ 1, f[pos] ^ 0x80, f[pos] + 1, f[pos] - 1, byte(r.Intn(256))} {
				if v == f[pos] {
					continue
				}
				g := append([]byte(nil), f...)
				g[pos] = v
				p02One(c, l+fmt.Sprintf(" byte %d=%02x", pos, v), g)
			}
		}
		for k := 0; k < 30; k++ { // insert / delete / swap
			g := append([]byte(nil), f...)
			pos := r.Intn(len(g))
			switch r.Intn(3) {
			case 0:
				g = append(g[:pos], append([]byte{byte(r.Intn(256))}, g[pos:]...)...)
			case 1:
				g = append(g[:pos], g[pos+1:]...)
			case 2:
				q := r.Intn(len(g))
				g[pos], g[q] = g[q], g[pos]
			}
			p02One(c, l+" edit", g)
			p02One(c, l+" edit+fixed", fix(g))
		}
	})
	// every SType/PType value
	for v := 0; v < 256; v++ {
		for _, body := range [][]byte{nil, ref.Encode(ref.Asc("x"))} {
			p02One(c, fmt.Sprint("stype ", v), ref.Msg{SType: byte(v), Text: body}.Bytes())
			p02One(c, fmt.Sprint("ptype ", v), ref.Msg{PType: byte(v), Byte2: 0x81, Byte3: 1, Text: body}.Bytes())
		}
	}
	// every format byte, with every small length
	for fb := 0; fb < 256; fb++ {
		for n := 0; n < 10; n++ {
			text := append([]byte{byte(fb), byte(n)}, bytes.Repeat([]byte{0x41}, n)...)
			p02One(c, fmt.Sprintf("format %02x len %d", fb, n), ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes())
			text = append([]byte{byte(fb), 0, byte(n)}, bytes.Repeat([]byte{0x01}, n)...)
			p02One(c, fmt.Sprintf("format %02x len16 %d", fb, n), ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes())
			text = append([]byte{byte(fb), 0, 0, byte(n)}, bytes.Repeat([]byte{0x00}, n)...)
			p02One(c, fmt.Sprintf("format %02x len24 %d", fb, n), ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes())
		}
	}
	// size bombs: a huge element count announced, hardly any bytes behind it
	for _, fb := range []byte{0x01, 0x02, 0x03, 0x21, 0x23, 0x25, 0x27, 0x41, 0x43, 0x91, 0x93, 0xA1, 0xA3, 0xB1, 0xB3, 0x63, 0x73, 0x83} {
		for _, ln := range [][]byte{{0xFF}, {0xFF, 0xFF}, {0xFF, 0xFF, 0xFF}, {0x00, 0xFF, 0xFF}, {0x80, 0, 0}} {
			if int(fb&3) != len(ln) {
				continue
			}
			for k := 0; k < 4; k++ {
				text := append(append([]byte{fb}, ln...), make([]byte, k)...)
				p02One(c, "bomb", ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes())
			}
		}
	}
	// non-finite floats, non-ASCII text, at every position
	for _, bits := range []uint64{0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001} {
		p02One(c, "f4 nonfinite", ref.DataMsg(1, 1, 1, true, 1, ref.Item{K: ref.F4, Words: []uint64{0, bits}}).Bytes())
	}
	for _, bits := range []uint64{0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001} {
		p02One(c, "f8 nonfinite", ref.DataMsg(1, 1, 1, true, 1, ref.Lst(ref.Item{K: ref.F8, Words: []uint64{bits, 0}})).Bytes())
	}
	for v := 0; v < 256; v++ {
		p02One(c, "ascii byte", ref.DataMsg(1, 1, 1, true, 1, ref.Item{K: ref.A, Words: []uint64{65, uint64(v), 66}}).Bytes())
		p02One(c, "bool byte", ref.DataMsg(1, 1, 1, true, 1, ref.Item{K: ref.BOOL, Words: []uint64{uint64(v)}}).Bytes())
	}
	// deep nesting: accepted up to 200 levels; beyond that accepted or rejected, never fatal
	for _, d := range []int{10, 100, 200} {
		text := append(bytes.Repeat([]byte{0x01, 0x01}, d), 0x01, 0x00)
		p02One(c, fmt.Sprint("nest ", d), ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes())
		p02One(c, fmt.Sprint("nest unterminated ", d), ref.Msg{Byte2: 1, Byte3: 1, Text: text[:2*d]}.Bytes())
	}
	// list towers deep enough to exhaust a stack: any verdict, but the process must survive
	for _, d := range []int{300, 5000, 100000, 6000000} {
		func() {
			defer c.Begin(fmt.Sprintf("a data message nesting %d lists", d))()
			frame := ref.Msg{Byte2: 1, Byte3: 1, Text: append(bytes.Repeat([]byte{0x01, 0x01}, d), 0x01, 0x00)}.Bytes()
			if d > 10000 { // unterminated: a decoder that recurses meets its limit first
				frame = ref.Msg{Byte2: 1, Byte3: 1, Text: bytes.Repeat([]byte{0x01, 0x01}, d)}.Bytes()
			}
			c.Case(fmt.Sprint("tower ", d), true)
			if pv, st := mon.Recover(func() { hp.Parse(frame) }); pv != nil {
				c.Violate("parse-panics", fmt.Sprint("tower ", d), "Parse panicked on %d nested lists: %v\n%s", d, pv, st)
			}
			c.Max("deepest_tower_survived", d)
		}()
	}
	// memory: decoding must not reserve space for elements the frame cannot hold
	for _, fb := range []byte{0x03, 0x23, 0x27, 0x43, 0x93, 0xA3, 0xB3, 0xA7, 0xAB, 0x67, 0x6B, 0x73} {
		for _, pre := range [][]byte{nil, {0x01, 0x02}, {0x01, 0x01, 0x01, 0x03}} {
			text := append(append([]byte(nil), pre...), fb, 0xFF, 0xFF, 0xF8, 1, 2, 3, 4, 5, 6, 7, 8)
			frame := ref.Msg{Byte2: 1, Byte3: 1, Text: text}.Bytes()
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			mon.Recover(func() { hp.Parse(frame) })
			runtime.ReadMemStats(&b)
			used := b.TotalAlloc - a.TotalAlloc
			c.Case("mem "+string(frame), true)
			c.Max("largest_allocation_for_a_size_bomb_bytes", int(used))
			if used > 8<<20 {
				c.Violate("size-bomb-memory", hex.EncodeToString(frame), "decoding a %d-byte frame that announces a 16 MB item allocated %d bytes", len(frame), used)
			}
		}
	}
	// random
	n := c.N(60000, 3000000)
	mon.Parallel(8, 64, func(i int) {
		r := c.Rng(fmt.Sprint("rnd", i))
		for k := 0; k < n/64 && !c.Broken(); k++ {
			ln := r.Intn(40)
			b := make([]byte, ln)
			r.Read(b)
			if r.Intn(8) > 0 && ln >= 14 {
				b[8], b[9] = 0, 0
				if r.Intn(2) == 0 {
					b[7] |= 1
				}
				for p := 14; p < ln; p++ { // bias to structure
					if r.Intn(3) == 0 {
						b[p] = []byte{0x01, 0x21, 0x25, 0x41, 0xA5, 0xA9, 0xB1, 0x65, 0x69, 0x71, 0x91, 0x81, 0x02, 0x42, 0x03}[r.Intn(15)]
					} else if r.Intn(2) == 0 {
						b[p] = byte(r.Intn(5))
					}
				}
			}
			p02One(c, "random", fix(b))
		}
	})
}
