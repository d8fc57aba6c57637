package props

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P04", Run: p04,
		Rule:   "packet sequences over FixLen (all head widths x byte orders x limits) around JSON or Byte, with and without Bufio, random segmentation and truncation; sizes concentrated on the limits; non-trivial when a packet is sent; distinct by configuration and bytes",
		Assume: []string{"JSON values are exchanged between codecs with the same registrations", "a failed Receive ends the use of that codec, as link.Session does"}})
}

type jA struct {
	S string
	N int64
	L []string
	M map[string]int
	F float64
	B []byte
}
type jB struct {
	X  *jA
	Ok bool
}

// registered types need not be structs
type (
	jMap  map[string]int
	jList []string
	jStr  string
	jNum  int64
	jFlag bool
)

func genJOther(r *rand.Rand) interface{} {
	switch r.Intn(5) {
	case 0:
		m := jMap{}
		for i := r.Intn(4); i >= 0; i-- {
			m[genText(r, 2)] = r.Intn(99)
		}
		return &m
	case 1:
		l := jList{genText(r, 3), genText(r, r.Intn(9))}
		return &l
	case 2:
		s := jStr(genText(r, r.Intn(9)))
		return &s
	case 3:
		n := jNum(r.Uint64())
		return &n
	}
	f := jFlag(r.Intn(2) == 0)
	return &f
}

func genText(r *rand.Rand, n int) string {
	b := make([]rune, n)
	for i := range b {
		switch r.Intn(12) {
		case 0:
			b[i] = []rune{'"', '\\', '\n', '\t', 0, '<', '{', '}', 'é', '世', 0x1F600, 0x2028}[r.Intn(12)]
		default:
			b[i] = rune(32 + r.Intn(95))
		}
	}
	return string(b)
}

func genJA(r *rand.Rand, n int) *jA {
	a := &jA{S: genText(r, n), N: int64(r.Uint64()), F: float64(r.Intn(1000)) / 8}
	for i := 0; i < r.Intn(4); i++ {
		a.L = append(a.L, genText(r, r.Intn(5)))
	}
	if r.Intn(2) == 0 {
		a.M = map[string]int{genText(r, 3): r.Intn(100), "k": r.Intn(9)}
	}
	if r.Intn(2) == 0 {
		a.B = make([]byte, r.Intn(20))
		r.Read(a.B)
		if len(a.B) == 0 {
			a.B = nil
		}
	}
	return a
}

// canon is the JSON value text: equality of what arrives with what was sent.
func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	d.Decode(&x)
	b, _ = json.Marshal(x)
	return string(b)
}

func jsonProto(byName bool) *codec.JsonProtocol {
	p := codec.Json()
	if byName {
		p.RegisterName("alpha", jA{})
		p.RegisterName("beta", &jB{})
		for i, t := range []interface{}{jMap{}, &jList{}, jStr(""), jNum(0), jFlag(false)} {
			p.RegisterName(fmt.Sprint("other/", i), t)
		}
	} else {
		p.Register(jA{})
		p.Register(&jB{})
		for _, t := range []interface{}{jMap{}, &jList{}, jStr(""), jNum(0), jFlag(false)} {
			p.Register(t)
		}
	}
	return p
}

func p04(c *mon.Ctx) {
	widths := []int{1, 2, 4, 8}
	n := c.N(600, 15000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("fix-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		w := widths[i%4]
		bo := binary.ByteOrder(binary.BigEndian)
		if r.Intn(2) == 0 {
			bo = binary.LittleEndian
		}
		p04FixLen(c, label, r, w, bo)
	})
	p04Plain(c)
	p04Long(c)
	p04Hostile(c)
	for _, w := range []int{0, 3, 5, 16, -1} {
		pv, _ := mon.Recover(func() { codec.FixLen(codec.Byte(), w, binary.BigEndian, 10, 10) })
		if pv == nil {
			c.Violate("width-accepted", nil, "FixLen accepts a head of %d bytes", w)
		}
	}
}

func headBytes(w int, bo binary.ByteOrder, n uint64) []byte {
	b := make([]byte, 8)
	switch w {
	case 1:
		b[0] = byte(n)
	case 2:
		bo.PutUint16(b, uint16(n))
	case 4:
		bo.PutUint32(b, uint32(n))
	case 8:
		bo.PutUint64(b, n)
	}
	return b[:w]
}

func p04FixLen(c *mon.Ctx, label string, r *rand.Rand, w int, bo binary.ByteOrder) {
	useJSON := r.Intn(2) == 0
	byName := r.Intn(2) == 0
	limits := []int{0, 1, 50, 200, 254, 255, 256, 300, 4091, 4092, 4093, 5000, 65534, 65535, 65536, 70000, 1 << 40}
	maxSend, maxRecv := limits[r.Intn(len(limits))], limits[r.Intn(len(limits))]
	eff := func(l int) int {
		if w == 1 && l > 255 {
			return 255
		}
		if w == 2 && l > 65535 {
			return 65535
		}
		return l
	}
	es, er := eff(maxSend), eff(maxRecv)
	mk := func() link.Protocol {
		var base link.Protocol = codec.Byte()
		if useJSON {
			base = jsonProto(byName)
		}
		return codec.FixLen(base, w, bo, maxRecv, maxSend)
	}
	bufd := r.Intn(2) == 0
	wrap := func(p link.Protocol) link.Protocol {
		if bufd {
			return codec.Bufio(p, []int{0, 16, 4096}[r.Intn(3)], []int{0, 16, 4096}[r.Intn(3)])
		}
		return p
	}
	desc := fmt.Sprintf("FixLen(json=%v,%d bytes,%v,recv<=%d,send<=%d) bufio=%v", useJSON, w, bo, maxRecv, maxSend, bufd)
	srw := &segRW{}
	sc, err := wrap(mk()).NewCodec(srw)
	if err != nil {
		c.Violate("codec-create", nil, "%s: %v", desc, err)
		return
	}
	var sent []interface{} // accepted
	var want []byte
	pick := func() int { // a payload size, often at a limit
		base := []int{0, 1, 2, 5, 100, er, es, 255, 256, 4092, 4093, 65535, 65536}[r.Intn(13)]
		base += r.Intn(3) - 1
		if base < 0 || base > 80000 {
			base = r.Intn(300)
		}
		return base
	}
	for j := 0; j < 1+r.Intn(6); j++ {
		var msg interface{}
		var payload []byte
		if useJSON {
			if r.Intn(3) == 0 {
				msg = &jB{X: genJA(r, r.Intn(30)), Ok: r.Intn(2) == 0}
			} else if r.Intn(4) == 0 {
				msg = genJOther(r)
			} else {
				msg = genJA(r, pick()/4)
			}
		} else {
			payload = make([]byte, pick())
			r.Read(payload)
			msg = payload
		}
		before := len(srw.out)
		var serr error
		pv, st := mon.Recover(func() { serr = sc.Send(msg) })
		if pv != nil {
			c.Violate("send-panics", desc, "%s: Send panicked: %v\n%s", desc, pv, st)
			return
		}
		wrote := srw.out[before:]
		c.Case(fmt.Sprint(desc, canon(msg)), true)
		if useJSON {
			// the packet body is whatever JSON the codec chose; judge the frame around it
			if serr == nil {
				if len(wrote) < w || !bytes.Equal(wrote[:w], headBytes(w, bo, uint64(len(wrote)-w))) {
					c.Violate("head-wrong", desc, "%s: head %x does not announce the %d body bytes", desc, wrote[:min(w, len(wrote))], len(wrote)-w)
					return
				}
				if len(wrote)-w > es {
					c.Violate("limit-ignored", desc, "%s: a body of %d bytes was sent", desc, len(wrote)-w)
				}
				sent = append(sent, msg)
			} else if len(wrote) != 0 {
				c.Violate("refused-but-written", desc, "%s: Send failed (%v) but wrote %d bytes", desc, serr, len(wrote))
			} else if !errors.Is(serr, codec.ErrTooLargePacket) || len(canon(msg)) < es/8 && es > 100 {
				c.Violate("send-refused", desc, "%s: Send of %d bytes of JSON failed: %v", desc, len(canon(msg)), serr)
			}
		} else {
			if len(payload) > es {
				if serr == nil {
					c.Violate("limit-ignored", desc, "%s: a body of %d bytes was sent", desc, len(payload))
				} else if len(wrote) != 0 {
					c.Violate("refused-but-written", desc, "%s: Send failed (%v) but wrote %d bytes", desc, serr, len(wrote))
				}
				c.Count("oversize_refused", 1)
				continue
			}
			if serr != nil {
				c.Violate("send-refused", desc, "%s: Send of %d bytes failed: %v", desc, len(payload), serr)
				continue
			}
			exp := append(headBytes(w, bo, uint64(len(payload))), payload...)
			if !bytes.Equal(wrote, exp) {
				c.Violate("frame-wrong", desc, "%s: frame differs: %s", desc, byteDiff(wrote, exp))
				return
			}
			sent = append(sent, append([]byte(nil), payload...))
		}
		want = append(want, wrote...)
	}
	c.Count("packets_sent", len(sent))
	// receive, whole or truncated
	stream := append([]byte(nil), want...)
	cut := len(stream)
	if r.Intn(3) == 0 && cut > 0 {
		cut = r.Intn(cut)
	}
	whole := 0
	limitAt := -1
	for off := 0; off+w <= len(stream); {
		var size int
		switch w {
		case 1:
			size = int(stream[off])
		case 2:
			size = int(bo.Uint16(stream[off:]))
		case 4:
			size = int(bo.Uint32(stream[off:]))
		case 8:
			size = int(bo.Uint64(stream[off:]))
		}
		if size > er {
			if off+w <= cut {
				limitAt = whole
			}
			break
		}
		if off+w+size > cut {
			break
		}
		whole++
		off += w + size
	}
	rrw := &segRW{data: stream[:cut], r: r, max: []int{1, 3, 50, 0}[r.Intn(4)]}
	rc, _ := wrap(mk()).NewCodec(rrw)
	got, rerr, pv, st := drain(rc, len(sent)+2)
	replay := map[string]any{"config": desc, "stream": cutHex(stream[:cut])}
	if pv != nil {
		c.Violate("receive-panics", replay, "%s: %v\n%s", desc, pv, st)
		return
	}
	c.Count("packets_received", len(got))
	if len(got) != whole {
		c.Violate("packet-count", replay, "%s: %d packets delivered, %d whole ones within the limit were in the stream (error %v)", desc, len(got), whole, rerr)
		return
	}
	if rerr == nil {
		c.Violate("no-end", replay, "%s: no error at the end of the stream", desc)
	}
	if limitAt >= 0 {
		c.Count("oversize_receives", 1)
		if !errors.Is(rerr, codec.ErrTooLargePacket) {
			c.Violate("limit-error", replay, "%s: packet over the receive limit reported as %v", desc, rerr)
		}
	}
	for k, v := range got {
		if useJSON {
			st := reflect.TypeOf(sent[k])
			if reflect.TypeOf(v) != st {
				c.Violate("type-changed", replay, "%s: a %v arrived as %T", desc, st, v)
				return
			}
			if canon(v) != canon(sent[k]) {
				c.Violate("packet-changed", replay, "%s: packet %d changed: %s -> %s", desc, k, canon(sent[k]), canon(v))
				return
			}
		} else if vb, ok := v.([]byte); !ok {
			c.Violate("type-changed", replay, "%s: packet %d of %d bytes arrived as %T", desc, k, len(sent[k].([]byte)), v)
			return
		} else if !bytes.Equal(vb, sent[k].([]byte)) {
			c.Violate("packet-changed", replay, "%s: packet %d changed: %s", desc, k, byteDiff(vb, sent[k].([]byte)))
			return
		}
	}
}

// p04Long: one codec carries megabytes.
func p04Long(c *mon.Ctx) {
	for i, w := range []int{0, 2, 4, 8} {
		for _, useJSON := range []bool{true, false} {
			label := fmt.Sprintf("long-%d-%v", w, useJSON)
			if c.Skip(label) || w == 0 && !useJSON {
				continue
			}
			end := c.Begin(label)
			r := c.Rng(label)
			mk := func() link.Protocol {
				var p link.Protocol = codec.Byte()
				if useJSON {
					p = jsonProto(true)
				}
				if w > 0 {
					p = codec.FixLen(p, w, binary.BigEndian, 1<<21, 1<<21)
				}
				if i%2 == 1 {
					p = codec.Bufio(p, 512, 512)
				}
				return p
			}
			rw := &segRW{}
			sc, _ := mk().NewCodec(rw)
			var sent []interface{}
			sizes := []int{60000, 100, 60000, 60000, 3}
			if w != 2 {
				sizes = append(sizes, 70000, 200000, 1, 1000000, 5, 300000)
			}
			for len(rw.out) < c.N(3<<20, 12<<20) {
				b := make([]byte, sizes[r.Intn(len(sizes))])
				for k := range b {
					b[k] = byte('a' + r.Intn(26))
				}
				var m interface{} = b
				if useJSON {
					m = &jA{S: string(b), N: int64(len(b))}
				}
				if err := sc.Send(m); err != nil && (!useJSON || w != 2) {
					c.Violate("send-refused", label, "%s: Send of %d bytes after %d bytes in %d packets: %v", label, len(b), len(rw.out), len(sent), err)
					break
				} else if err == nil {
					sent = append(sent, m)
				}
			}
			rc, _ := mk().NewCodec(&segRW{data: rw.out, r: r, max: 20000})
			got, err, pv, st := drain(rc, len(sent)+1)
			c.Case(label, true)
			c.Count("packets_sent", len(sent))
			c.Count("packets_received", len(got))
			c.Max("longest_stream", len(rw.out))
			if pv != nil {
				c.Violate("receive-panics", label, "%s: %v\n%s", label, pv, st)
			} else if len(got) != len(sent) {
				c.Violate("packet-count", label, "%s: %d of %d packets delivered (error %v)", label, len(got), len(sent), err)
			} else {
				for k := range got {
					if !reflect.DeepEqual(got[k], sent[k]) {
						c.Violate("packet-changed", label, "%s: packet %d changed", label, k)
						break
					}
				}
			}
			end()
		}
	}
}

// p04Plain: JSON and Byte directly on a stream.
func p04Plain(c *mon.Ctx) {
	for i := 0; i < c.N(80, 2000); i++ {
		label := fmt.Sprintf("plain-%d", i)
		if c.Skip(label) {
			continue
		}
		end := c.Begin(label)
		r := c.Rng(label)
		jp := jsonProto(r.Intn(2) == 0)
		var p link.Protocol = jp
		if r.Intn(2) == 0 {
			p = codec.Bufio(jp, 64, 64)
		}
		rw := &segRW{}
		sc, _ := p.NewCodec(rw)
		var sent []interface{}
		for j := 0; j < 1+r.Intn(5); j++ {
			var m interface{} = genJA(r, r.Intn(40))
			switch r.Intn(5) {
			case 4:
				m = genJOther(r)
			case 0:
				m = &jB{Ok: true}
			case 1:
				m = *genJA(r, 3) // by value
			case 2:
				m = map[string]interface{}{"free": genText(r, 4), "n": []interface{}{"a", true, nil}} // not registered
			}
			if err := sc.Send(m); err != nil {
				c.Violate("send-refused", nil, "%s: Json Send(%T): %v", label, m, err)
			}
			sent = append(sent, m)
		}
		rr := &segRW{data: append([]byte(nil), rw.out...), r: r, max: 1 + r.Intn(30)}
		rc, _ := p.NewCodec(rr)
		got, rerr, pv, st := drain(rc, len(sent)+2)
		c.Case("plain"+string(rw.out), true)
		if pv != nil {
			c.Violate("receive-panics", nil, "%s: %v\n%s", label, pv, st)
		} else if len(got) != len(sent) || rerr == nil {
			c.Violate("packet-count", nil, "%s: %d of %d JSON values delivered, error %v", label, len(got), len(sent), rerr)
		} else {
			for k := range got {
				if canon(got[k]) != canon(sent[k]) {
					c.Violate("packet-changed", nil, "%s: %s -> %s", label, canon(sent[k]), canon(got[k]))
				}
				t := reflect.TypeOf(sent[k])
				switch {
				case t.Kind() == reflect.Map:
				case t.Kind() == reflect.Ptr && reflect.TypeOf(got[k]) != t, t.Kind() == reflect.Struct && reflect.TypeOf(got[k]) != reflect.PointerTo(t):
					c.Violate("type-changed", nil, "%s: a %v arrived as %T", label, t, got[k])
				}
			}
		}
		// Byte alone: the concatenation of what is received is what was sent
		brw := &segRW{}
		bc, _ := codec.Byte().NewCodec(brw)
		var all []byte
		for j := 0; j < 4; j++ {
			b := make([]byte, r.Intn(9000))
			r.Read(b)
			bc.Send(b)
			all = append(all, b...)
		}
		if !bytes.Equal(brw.out, all) {
			c.Violate("byte-send", nil, "%s: Byte codec wrote something else than it was given", label)
		}
		br := &segRW{data: append([]byte(nil), all...), r: r, max: 1 + r.Intn(6000)}
		bc2, _ := codec.Byte().NewCodec(br)
		var chunks []interface{}
		for {
			v, err := bc2.Receive()
			if b, ok := v.([]byte); ok {
				chunks = append(chunks, b)
			}
			if err != nil {
				break
			}
		}
		var cat []byte
		for _, b := range chunks {
			cat = append(cat, b.([]byte)...)
		}
		if !bytes.Equal(cat, all) {
			c.Violate("byte-stream", nil, "%s: the Byte codec lost or changed bytes: %s", label, byteDiff(cat, all))
		}
		if bc.Send("text") == nil || bc.Send(nil) == nil {
			c.Violate("send-nonsense", nil, "Byte codec accepts something that is no []byte")
		}
		end()
	}
}

// p04Hostile: bodies that are not what they should be.
func p04Hostile(c *mon.Ctx) {
	bodies := []string{``, ` `, `{`, `{}`, `null`, `[]`, `5`, `"x"`, `{"Head":"alpha"}`, `{"Head":"alpha","Body":null}`, `{"Head":"alpha","Body":5}`,
		`{"Head":"alpha","Body":{"N":"x"}}`, `{"Head":"alpha","Body":{"N":1e99}}`, `{"Head":"alpha","Body":[1]}`, `{"Head":5,"Body":{}}`, `{"Head":"alpha","Body":{}`, `{"Head":"alpha","Body":}`,
		`{"Head":"beta","Body":{"X":7}}`, "\x00\x01", `{"Head":"","Body":null}`, `{"Head":"nosuch","Body":null}`, "{\"Head\":\"alpha\",\"Body\":{\"S\":\"\xff\"}"}
	for i, body := range bodies {
		for _, w := range []int{0, 1, 2, 4, 8} {
			jp := jsonProto(true)
			var p link.Protocol = jp
			data := []byte(body)
			if w > 0 {
				p = codec.FixLen(jp, w, binary.BigEndian, 1<<20, 1<<20)
				data = append(headBytes(w, binary.BigEndian, uint64(len(body))), data...)
			}
			cd, _ := p.NewCodec(&segRW{data: data})
			var v interface{}
			var err error
			pv, st := mon.Recover(func() { v, err = cd.Receive() })
			c.Case(fmt.Sprint("h", i, w), true)
			c.Count("hostile_bodies", 1)
			if pv != nil {
				c.Violate("receive-panics", body, "Json Receive of %q (head %d): %v\n%s", body, w, pv, st)
			} else if err == nil {
				c.Violate("bad-body-accepted", body, "Json Receive of %q (head %d) delivered %T %s", body, w, v, canon(v))
			}
		}
	}
	// heads with extreme values
	for _, w := range []int{1, 2, 4, 8} {
		for _, h := range []uint64{^uint64(0), 1 << 63, 1<<63 - 1, 1 << 32, 1<<31 - 1, 1 << 31, 101} {
			for _, bo := range []binary.ByteOrder{binary.BigEndian, binary.LittleEndian} {
				var v uint64
				hb := headBytes(w, bo, h)
				switch w {
				case 1:
					v = uint64(hb[0])
				case 2:
					v = uint64(bo.Uint16(hb))
				case 4:
					v = uint64(bo.Uint32(hb))
				case 8:
					v = h
				}
				if v <= 100 {
					continue
				}
				cd, _ := codec.FixLen(codec.Byte(), w, bo, 100, 100).NewCodec(&segRW{data: append(hb, make([]byte, 300)...)})
				var err error
				pv, st := mon.Recover(func() { _, err = cd.Receive() })
				c.Case(fmt.Sprint("head", w, h, bo), true)
				if pv != nil {
					c.Violate("receive-panics", h, "head %x: %v\n%s", hb, pv, st)
				} else if !errors.Is(err, codec.ErrTooLargePacket) {
					c.Violate("limit-error", h, "head %x with limit 100: %v", hb, err)
				}
			}
		}
	}
}
