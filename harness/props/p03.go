package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P03", Run: p03,
		Rule:   "message sequences from the seed pushed through the codec under random segmentation, truncated at every offset, corrupted, announcing huge lengths, and stalled; non-trivial when at least one whole message precedes the end or fault; distinct by bytes and fault",
		Assume: []string{"the transport delivers bytes in order (TCP)", "T8 stalls are judged by lower bounds and a 40 s watchdog"}})
}

func streamProto(variant int) (link.Protocol, string) {
	sizes := [][2]int{{0, 0}, {16, 16}, {1, 1}, {64, 0}, {0, 64}, {4096, 4096}, {1 << 17, 1 << 17}}
	if variant == 0 {
		return codec.SECSII(), "SECSII"
	}
	s := sizes[(variant-1)%len(sizes)]
	return codec.Bufio(codec.SECSII(), s[0], s[1]), fmt.Sprintf("Bufio(SECSII,%d,%d)", s[0], s[1])
}

func msgBytes(v interface{}) ([]byte, error) {
	m, ok := v.(ast.HSMSMessage)
	if !ok {
		return nil, fmt.Errorf("received a %T", v)
	}
	return m.ToBytes(), nil
}

func normalMsg(m ref.Msg) ref.Msg {
	if m.SType == ref.Data {
		it, err := m.Item()
		if err == nil {
			m.Text = ref.Encode(it.Normal())
		}
	}
	return m
}

// drain receives until an error.
func drain(cd link.Codec, limit int) (got []interface{}, err error, pv any, st string) {
	pv, st = mon.Recover(func() {
		for len(got) < limit {
			var v interface{}
			if v, err = cd.Receive(); err != nil {
				return
			}
			got = append(got, v)
		}
	})
	return
}

func p03(c *mon.Ctx) {
	p03Sequences(c)
	p03Truncate(c)
	p03Corrupt(c)
	p03Huge(c)
	p03Send(c)
	p03T8(c)
	p03Big(c)
}

// p03Big: messages longer than one item can be, between small ones.
func p03Big(c *mon.Ctx) {
	for i, parts := range [][]int{{16777215}, {9 << 20, 9 << 20}, {1 << 16, 16777215, 1 << 16}} {
		label := fmt.Sprintf("big-%d", i)
		if c.Skip(label) || i == 2 && !c.Thorough() {
			continue
		}
		end := c.Begin(label)
		r := c.Rng(label)
		var its []ref.Item
		for k, n := range parts {
			b := make([]byte, n)
			rand.New(rand.NewSource(int64(k))).Read(b)
			its = append(its, ref.Bin(b...))
		}
		want := []ref.Msg{smallMsg(r), ref.DataMsg(1, 7, 3, true, r.Uint32(), ref.Lst(its...)), smallMsg(r)}
		var stream []byte
		for _, m := range want {
			stream = append(stream, m.Bytes()...)
		}
		proto, pn := streamProto(i * 6)
		cd, _ := proto.NewCodec(&segRW{data: append([]byte(nil), stream...), r: r, max: 1 << 20})
		got, err, pv, st := drain(cd, len(want)+2)
		c.Case(label, true)
		c.Count("messages_delivered", len(got))
		c.Max("largest_message", len(want[1].Text))
		if pv != nil {
			c.Violate("receive-panics", label, "%s (%s): %v\n%s", label, pn, pv, st)
		} else {
			compareSeq(c, fmt.Sprintf("%s (%s, message of %d bytes, error %v)", label, pn, len(want[1].Text), err), want, got, label)
		}
		end()
	}
}

// compareSeq judges received messages against the expected prefix.
func compareSeq(c *mon.Ctx, label string, want []ref.Msg, got []interface{}, replay any) bool {
	for i, v := range got {
		if i >= len(want) {
			b, _ := msgBytes(v)
			c.Violate("invented-message", replay, "%s: message %d was delivered though only %d whole ones were in the stream: %s", label, i, len(want), cutHex(b))
			return false
		}
		b, err := msgBytes(v)
		if err != nil {
			c.Violate("wrong-type", replay, "%s: message %d: %v", label, i, err)
			return false
		}
		w := want[i].Bytes()
		if !bytes.Equal(b, w) {
			c.Violate("message-changed", replay, "%s: message %d differs from the one in the stream (checked after the whole stream was read): %s", label, i, byteDiff(b, w))
			return false
		}
	}
	if len(got) < len(want) {
		c.Violate("message-lost", replay, "%s: %d of %d whole messages delivered", label, len(got), len(want))
		return false
	}
	return true
}

func p03Sequences(c *mon.Ctx) {
	n := c.N(400, 12000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("seq-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var stream []byte
		var want []ref.Msg
		k := 1 + r.Intn(12)
		for j := 0; j < k; j++ {
			m := normalMsg(anyMsg(r))
			if r.Intn(25) == 0 { // a large one, so that buffers grow and are reused
				m = ref.DataMsg(uint16(r.Intn(65536)), 6, 11, true, r.Uint32(), ref.GenKind(r, ref.B, 1000+r.Intn(150000)))
			}
			want = append(want, m)
			stream = append(stream, m.Bytes()...)
		}
		proto, pn := streamProto(r.Intn(8))
		seg := r
		max := []int{1, 2, 3, 5, 16, 100, 0}[r.Intn(7)]
		if r.Intn(6) == 0 {
			seg = nil
		}
		rw := &segRW{data: append([]byte(nil), stream...), r: seg, max: max}
		cd, err := proto.NewCodec(rw)
		if err != nil {
			c.Violate("codec-create", nil, "NewCodec: %v", err)
			return
		}
		got, err, pv, st := drain(cd, k+3)
		c.Case(fmt.Sprint(pn, max, seg == nil, string(stream)), true)
		c.Count("messages_delivered", len(got))
		c.Count("read_calls", rw.cuts)
		replay := map[string]any{"codec": pn, "stream": cutHex(stream), "max_piece": max}
		if pv != nil {
			c.Violate("receive-panics", replay, "%s (%s): %v\n%s", label, pn, pv, st)
			return
		}
		compareSeq(c, label+" "+pn, want, got, replay)
		if err == nil {
			c.Violate("no-end", replay, "%s: the stream ended but Receive went on delivering", label)
		}
		if i < 2 {
			c.Sample(map[string]any{"codec": pn, "messages": k, "reads": rw.cuts, "stream_bytes": len(stream)})
		}
	})
}

func p03Truncate(c *mon.Ctx) {
	n := c.N(12, 200)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("trunc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var stream []byte
		var want []ref.Msg
		var ends []int
		for j := 0; j < 2+r.Intn(3); j++ {
			h := genHdr(r)
			m := normalMsg(ref.DataMsg(uint16(h.session), h.stream, h.function, h.w, h.sys, ref.Gen(r, 2, 4)))
			if len(m.Text) > 400 {
				m.Text = nil
			}
			want = append(want, m)
			stream = append(stream, m.Bytes()...)
			ends = append(ends, len(stream))
		}
		for cut := 0; cut <= len(stream); cut++ {
			whole := 0
			for _, e := range ends {
				if e <= cut {
					whole++
				}
			}
			proto, pn := streamProto(r.Intn(8))
			rw := &segRW{data: append([]byte(nil), stream[:cut]...), r: r, max: 1 + r.Intn(40)}
			cd, _ := proto.NewCodec(rw)
			// through a session, as applications use it: the error must end the session
			s := link.NewSession(cd, 0)
			var got []interface{}
			var err error
			pv, st := mon.Recover(func() {
				for len(got) < len(want)+2 {
					var v interface{}
					if v, err = s.Receive(); err != nil {
						return
					}
					got = append(got, v)
				}
			})
			replay := map[string]any{"codec": pn, "stream": cutHex(stream), "cut": cut}
			c.Case(fmt.Sprint("t", cut, string(stream)), whole > 0)
			c.Count("truncation_points", 1)
			if pv != nil {
				c.Violate("receive-panics", replay, "%s cut at %d (%s): %v\n%s", label, cut, pn, pv, st)
				continue
			}
			compareSeq(c, fmt.Sprintf("%s cut at %d", label, cut), want[:whole], got, replay)
			if err == nil || !s.IsClosed() {
				c.Violate("truncation-unnoticed", replay, "%s: stream cut at %d of %d: err=%v session closed=%v", label, cut, len(stream), err, s.IsClosed())
			}
		}
	})
}

// p03Corrupt: an undecodable message ends the session at its place.
func p03Corrupt(c *mon.Ctx) {
	n := c.N(200, 5000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("corrupt-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		k := r.Intn(5)
		var want []ref.Msg
		var stream []byte
		for j := 0; j < k; j++ {
			m := normalMsg(anyMsg(r))
			want = append(want, m)
			stream = append(stream, m.Bytes()...)
		}
		bad := smallMsg(r)
		kind := r.Intn(7)
		switch kind {
		case 0: // announced length below the header size
			b := bad.Bytes()
			binary.BigEndian.PutUint32(b, uint32(r.Intn(10)))
			stream = append(stream, b...)
		case 1: // reserved format code
			bad.Text = []byte{0xFF, 1, 0}
			stream = append(stream, bad.Bytes()...)
		case 2: // item longer than the message
			bad.Text = []byte{0x41, 200, 'a', 'b'}
			stream = append(stream, bad.Bytes()...)
		case 3: // bytes behind the item
			bad.Text = []byte{0x41, 1, 'a', 'b', 'c'}
			stream = append(stream, bad.Bytes()...)
		case 4: // another presentation type
			bad.PType = byte(1 + r.Intn(255))
			stream = append(stream, bad.Bytes()...)
		case 5: // undefined session type
			bad.SType = []byte{8, 10, 11, 127, 128, 255}[r.Intn(6)]
			stream = append(stream, bad.Bytes()...)
		default: // a valid message with damaged bytes
			for {
				if bad = normalMsg(anyMsg(r)); bad.SType != ref.Data {
					continue
				}
				bb := bad.Bytes()
				for x := 1 + r.Intn(3); x > 0; x-- {
					bb[4+r.Intn(len(bb)-4)] = byte(r.Intn(256))
				}
				if _, _, ok, why := refVerdict(bb); ok || why == "control-text" {
					continue
				}
				bad, _ = ref.ParseMsg(bb)
				break
			}
			stream = append(stream, bad.Bytes()...)
		}
		for j := 0; j < 2; j++ {
			stream = append(stream, normalMsg(anyMsg(r)).Bytes()...)
		}
		proto, pn := streamProto(r.Intn(8))
		rw := &segRW{data: stream, r: r, max: 1 + r.Intn(300)}
		cd, _ := proto.NewCodec(rw)
		s := link.NewSession(cd, 0)
		var got []interface{}
		var err error
		pv, st := mon.Recover(func() {
			for len(got) < k+4 {
				var v interface{}
				if v, err = s.Receive(); err != nil {
					return
				}
				got = append(got, v)
			}
		})
		replay := map[string]any{"codec": pn, "kind": kind, "bad_message": cutHex(bad.Bytes())}
		c.Case(fmt.Sprint("c", kind, string(stream)), k > 0)
		c.Count("corrupt_streams", 1)
		if pv != nil {
			c.Violate("receive-panics", replay, "%s: %v\n%s", label, pv, st)
			return
		}
		compareSeq(c, label, want, got, replay)
		if err == nil || !s.IsClosed() {
			c.Violate("corruption-unnoticed", replay, "%s: undecodable message (kind %d) after %d good ones: err=%v, session closed=%v", label, kind, k, err, s.IsClosed())
		}
	})
}

// p03Huge: memory reserved for an announced length.
func p03Huge(c *mon.Ctx) {
	for i, announced := range []uint32{1 << 20, 16 << 20, 64 << 20, 1 << 30, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF} {
		for j, have := range []int{0, 10, 1000, 100000} {
			for v := 0; v < 3; v++ {
				label := fmt.Sprintf("huge-%d-%d-%d", i, j, v)
				if c.Skip(label) {
					continue
				}
				end := c.Begin(label)
				stream := make([]byte, 4+have)
				binary.BigEndian.PutUint32(stream, announced)
				proto, pn := streamProto(v)
				rw := &segRW{data: stream}
				cd, _ := proto.NewCodec(rw)
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				var err error
				var msg interface{}
				pv, st := mon.Recover(func() { msg, err = cd.Receive() })
				runtime.ReadMemStats(&m1)
				alloc := m1.TotalAlloc - m0.TotalAlloc
				replay := map[string]any{"codec": pn, "announced": announced, "bytes_sent": have}
				c.Case(label, true)
				c.Count("huge_lengths", 1)
				c.Max("max_bytes_reserved_for_huge_length", int(alloc))
				if pv != nil {
					c.Violate("receive-panics", replay, "length field %d: %v\n%s", announced, pv, st)
				} else if err == nil {
					c.Violate("huge-accepted", replay, "length field %d with %d bytes: Receive returned %v", announced, have, msg)
				}
				if limit := uint64(8<<20 + 16*have); alloc > limit {
					c.Violate("huge-reservation", replay, "length field %d, %d bytes actually sent: Receive allocated %d bytes", announced, have, alloc)
				}
				end()
			}
		}
	}
}

func p03Send(c *mon.Ctx) {
	for i := 0; i < c.N(60, 1000); i++ {
		label := fmt.Sprintf("send-%d", i)
		if c.Skip(label) {
			continue
		}
		r := c.Rng(label)
		proto, pn := streamProto(r.Intn(8))
		rw := &segRW{}
		cd, _ := proto.NewCodec(rw)
		var want []byte
		for j := 0; j < 1+r.Intn(6); j++ {
			b := anyMsg(r).Bytes()
			if err := cd.Send(b); err != nil {
				c.Violate("send-fails", nil, "%s: Send of a valid message: %v", pn, err)
			}
			want = append(want, b...)
			if !bytes.Equal(rw.out, want) {
				c.Violate("send-differs", map[string]any{"codec": pn, "message": cutHex(b)}, "%s: bytes on the wire after Send returned differ: %s", pn, byteDiff(rw.out, want))
				break
			}
			for _, bad := range []interface{}{nil, "text", 42, struct{}{}} {
				if r.Intn(8) == 0 {
					pv, _ := mon.Recover(func() {
						if cd.Send(bad) == nil {
							c.Violate("send-nonsense", nil, "%s: Send(%v) reports success", pn, bad)
						}
					})
					if pv != nil {
						c.Violate("send-panics", nil, "%s: Send(%T) panicked: %v", pn, bad, pv)
					}
					if !bytes.Equal(rw.out, want) {
						c.Violate("send-nonsense", nil, "%s: refused Send(%v) wrote bytes", pn, bad)
					}
				}
			}
			c.Case(fmt.Sprint("s", pn, string(b)), true)
			c.Count("messages_sent", 1)
		}
	}
}

// p03T8: the intercharacter timeout over real connections.
func p03T8(c *mon.Ctx) {
	n := c.N(12, 48)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		label := fmt.Sprintf("t8-%d", i)
		if c.Skip(label) {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			p03T8One(c, label, c.Rng(label), i)
		}(i)
	}
	wg.Wait()
}

func p03T8One(c *mon.Ctx, label string, r *rand.Rand, i int) {
	defer c.Begin(label)()
	a, b, err := tcpPair()
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return
	}
	defer a.Close()
	defer b.Close()
	const t8 = 1500 * time.Millisecond
	buf := []int{0, 4096}[i%2]
	cd, err := codec.Bufio(codec.SECSII(), buf, buf).NewCodec(b)
	if err != nil {
		c.Violate("codec-create", nil, "%v", err)
		return
	}
	ic, ok := cd.(link.IntercharTimeoutCodec)
	if !ok || !ic.SetIntercharTimeout(t8) {
		c.Violate("t8-unsupported", nil, "a buffered codec over TCP does not support the intercharacter timeout")
		return
	}
	type rx struct {
		b   []byte
		err error
		at  time.Time
	}
	ch := make(chan rx, 16)
	go func() {
		for {
			v, err := cd.Receive()
			x := rx{err: err, at: time.Now()}
			if err == nil {
				x.b, x.err = msgBytes(v)
			}
			ch <- x
			if x.err != nil {
				return
			}
		}
	}()
	var worstGap time.Duration
	write := func(p []byte) time.Time { a.Write(p); return time.Now() }
	recv := func(what string, want []byte) bool {
		select {
		case x := <-ch:
			if x.err != nil {
				if worstGap > t8*2/3 {
					c.Inconclusive("%s: %s: receiver failed (%v) but the harness itself stalled %v inside a message", label, what, x.err, worstGap)
					return false
				}
				var ne net.Error
				to := errors.As(x.err, &ne) && ne.Timeout()
				c.Violate("t8-fires-idle", map[string]any{"what": what}, "%s: %s: receiver failed with %v (timeout=%v) though no gap inside a message exceeded T8=%v (largest %v)", label, what, x.err, to, t8, worstGap)
				return false
			}
			if !bytes.Equal(x.b, want) {
				c.Violate("message-changed", nil, "%s: %s: %s", label, what, byteDiff(x.b, want))
				return false
			}
			return true
		case <-time.After(mon.Hang):
			c.Violate("receive-hangs", nil, "%s: %s: message not delivered after %v\n%s", label, what, mon.Hang, mon.LibStacks())
			return false
		}
	}
	// whole messages with idle gaps longer than T8 before, between and after
	for k := 0; k < 2; k++ {
		m := ref.DataMsg(1, 1, 1, true, uint32(k), ref.Asc("idle")).Bytes()
		time.Sleep(t8 + 500*time.Millisecond)
		write(m)
		c.Count("idle_gaps_over_t8", 1)
		if !recv("message after an idle line", m) {
			return
		}
	}
	// dripping: every gap well under T8, in total over T8
	m := ref.DataMsg(1, 1, 3, true, 9, ref.Asc("dripping")).Bytes()
	last := time.Now()
	for k := 0; k < len(m); {
		n := 1 + r.Intn(4)
		if k+n > len(m) {
			n = len(m) - k
		}
		now := write(m[k : k+n])
		if k > 0 && now.Sub(last) > worstGap {
			worstGap = now.Sub(last)
		}
		last = now
		k += n
		time.Sleep(250 * time.Millisecond)
	}
	c.Count("dripped_messages", 1)
	if !recv("message arriving in small pieces", m) {
		return
	}
	time.Sleep(t8 + 300*time.Millisecond)
	// stall inside a message: first byte, inside the length, inside header, inside text
	cut := []int{1, 3, 4, 9, 14, 18}[i%6]
	if i/6%2 == 1 { // a message of nothing but its header
		m = []ref.Msg{ref.Ctrl(ref.LinktestReq, 0xFFFF, 7), ref.DataMsg(1, 1, 1, true, 7, ref.Item{}), ref.Ctrl(ref.SelectReq, 1, 7)}[i%3].Bytes()
		cut = []int{1, 3, 4, 9, 11, 13}[i%6]
	}
	before := time.Now()
	write(m[:cut])
	select {
	case x := <-ch:
		c.Count("stalls_detected", 1)
		if x.err == nil {
			c.Violate("invented-message", nil, "%s: a message was delivered from %d of %d bytes", label, cut, len(m))
		} else if d := x.at.Sub(before); d < t8-20*time.Millisecond {
			c.Violate("t8-early", map[string]any{"cut": cut}, "%s: stall after byte %d reported after %v, before T8=%v (%v)", label, cut, d, t8, x.err)
		} else if errors.Is(x.err, io.EOF) {
			c.Violate("t8-eof", nil, "%s: stall reported as end of stream", label)
		}
	case <-time.After(mon.Hang):
		c.Violate("t8-missing", map[string]any{"cut": cut, "read_buffer": buf}, "%s: stalled after %d of %d bytes for %v, T8=%v never fired", label, cut, len(m), mon.Hang, t8)
	}
	c.Case(fmt.Sprint("t8", i, cut, buf), true)
}
