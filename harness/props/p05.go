package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P05", Run: p05,
		Rule:   "send logs (sender, sequence number, result) of concurrent senders on one session matched with the byte log recorded by the peer, for seeded mixes of sender counts, queue sizes, write fragmentation, peer speed and closes; non-trivial when at least two senders succeeded; distinct by configuration and observed wire order",
		Assume: []string{"messages still queued when the session closes need not reach the wire", "a synchronous send may report the transport's own error"}})
}

// chopConn splits every write into pieces and yields between them, so that two writers would
// visibly interleave.
type chopConn struct {
	net.Conn
	mu      sync.Mutex
	rng     *rand.Rand
	chop    bool
	inWrite atomic.Int32
	overlap atomic.Int32
}

func (c *chopConn) Write(p []byte) (int, error) {
	if c.inWrite.Add(1) > 1 {
		c.overlap.Add(1)
	}
	defer c.inWrite.Add(-1)
	if !c.chop {
		return c.Conn.Write(p)
	}
	done := 0
	for done < len(p) {
		c.mu.Lock()
		n := 1 + c.rng.Intn(40)
		c.mu.Unlock()
		if n > len(p)-done {
			n = len(p) - done
		}
		k, err := c.Conn.Write(p[done : done+n])
		done += k
		if err != nil {
			return done, err
		}
		runtime.Gosched()
	}
	return done, nil
}

// sendUnit is one thing to send and the frame it must become.
type sendUnit struct {
	msg   interface{}
	frame []byte
}

// unitMaker builds units whose frames carry (sender, seq), for one codec stack.
type unitMaker struct {
	name  string
	proto link.Protocol
	make  func(sender, seq int, r *rand.Rand) sendUnit
}

func hsmsUnit(sender, seq int, r *rand.Rand) sendUnit {
	fill := make([]byte, r.Intn(90))
	if r.Intn(30) == 0 {
		fill = make([]byte, r.Intn(20000))
	}
	for i := range fill {
		fill[i] = byte(sender*7 + seq)
	}
	m := ref.DataMsg(uint16(sender), 1+seq%100, 1, false, uint32(sender)<<20|uint32(seq), ref.Bin(fill...))
	return sendUnit{astMsg(m).ToBytes(), m.Bytes()}
}

func fixUnit(sender, seq int, r *rand.Rand) sendUnit {
	b := make([]byte, 14+r.Intn(90))
	binary.BigEndian.PutUint16(b, uint16(sender))
	binary.BigEndian.PutUint32(b[10:], uint32(sender)<<20|uint32(seq))
	for i := 14; i < len(b); i++ {
		b[i] = byte(sender*7 + seq)
	}
	f := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	copy(f[4:], b)
	return sendUnit{b, f}
}

func unitMakers() []unitMaker {
	return []unitMaker{
		{"SECSII", codec.SECSII(), hsmsUnit},
		{"Bufio(SECSII,64,64)", codec.Bufio(codec.SECSII(), 64, 64), hsmsUnit},
		{"Bufio(SECSII,4096,4096)", codec.Bufio(codec.SECSII(), 4096, 4096), hsmsUnit},
		{"FixLen(Byte)", codec.FixLen(codec.Byte(), 4, binary.BigEndian, 1<<20, 1<<20), fixUnit},
		{"Bufio(FixLen(Byte))", codec.Bufio(codec.FixLen(codec.Byte(), 4, binary.BigEndian, 1<<20, 1<<20), 128, 128), fixUnit},
	}
}

func p05(c *mon.Ctx) {
	p05Stress(c)
	p05Stuck(c)
	p05Fault(c)
	p05Preempt(c)
	p05Receivers(c)
}

// faultConn fails one write after part of it, and works again afterwards.
type faultConn struct {
	net.Conn
	log    wireBuf
	at     int // the write that fails
	part   float64
	n      int
	failed atomic.Bool
	after  atomic.Int32 // bytes written behind the failure
	closed atomic.Bool
}

func (f *faultConn) Close() error {
	f.closed.Store(true)
	return f.Conn.Close()
}

var errTransient = errors.New("write: no buffer space available")

func (f *faultConn) Write(p []byte) (int, error) {
	if f.closed.Load() {
		return 0, net.ErrClosed
	}
	if f.failed.Load() {
		f.after.Add(int32(len(p)))
	}
	f.n++
	if f.n == f.at {
		k := int(f.part * float64(len(p)))
		f.log.Write(p[:k])
		f.failed.Store(true)
		return k, errTransient
	}
	f.log.Write(p)
	return len(p), nil
}

// p05Fault: the transport fails inside a message. The torn message is the last thing on the wire
// and its send (if synchronous) reports the failure.
func p05Fault(c *mon.Ctx) {
	n := c.N(300, 8000)
	makers := unitMakers()
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("fault-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		mk := makers[r.Intn(len(makers))]
		queue := []int{0, 0, 1000}[r.Intn(3)]
		a, b := net.Pipe()
		fc := &faultConn{Conn: a, at: 1 + r.Intn(25), part: []float64{0, 0.5, 1, r.Float64()}[r.Intn(4)]}
		cd, err := mk.proto.NewCodec(fc)
		if err != nil {
			c.Violate("codec-create", nil, "%v", err)
			return
		}
		s := link.NewSession(cd, queue)
		senders := 1 + r.Intn(4)
		us := make([][]sendUnit, senders)
		index := map[string][2]int{}
		for x := range us {
			for y := 0; y < 12; y++ {
				u := mk.make(x, y, r)
				us[x] = append(us[x], u)
				index[string(u.frame)] = [2]int{x, y}
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		acked := map[[2]int]bool{}
		for x := range us {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for y, u := range us[x] {
					if s.Send(u.msg) == nil {
						mu.Lock()
						acked[[2]int{x, y}] = true
						mu.Unlock()
					}
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("send-blocks", nil, "%s: senders have not returned after a transport failure\n%s", label, mon.LibStacks())
			return
		}
		if queue > 0 {
			mon.Eventually(mon.Hang, func() bool { return s.IsClosed() || fc.log.Len() >= totalLen(us) })
		}
		failed := fc.failed.Load()
		desc := fmt.Sprintf("%s, queue %d, %d senders, write %d fails after %.2f of it", mk.name, queue, senders, fc.at, fc.part)
		if failed && !mon.Eventually(mon.Hang, s.IsClosed) {
			c.Violate("failure-unnoticed", desc, "%s: %s: the session stays open after a failed write", label, desc)
		}
		s.Close()
		b.Close()
		if k := fc.after.Load(); k > 0 {
			c.Violate("written-after-failure", desc, "%s: %s: %d bytes follow a message that could not be written", label, desc, k)
		}
		onWire := map[[2]int]int{}
		for w := fc.log.Bytes(); len(w) > 0; {
			if len(w) < 4 || len(w) < 4+int(binary.BigEndian.Uint32(w)) {
				if !prefixOfUnit(index, w) {
					c.Violate("interleaved", desc, "%s: %s: the torn message is no prefix of a sent one", label, desc)
				}
				break
			}
			m := 4 + int(binary.BigEndian.Uint32(w))
			id, ok := index[string(w[:m])]
			if !ok {
				c.Violate("interleaved", desc, "%s: %s: bytes on the wire are no sent message: %s", label, desc, cutHex(w[:m]))
				return
			}
			onWire[id]++
			if onWire[id] > 1 {
				c.Violate("duplicate-or-reordered", desc, "%s: %s: message %v is on the wire twice", label, desc, id)
			}
			w = w[m:]
		}
		if queue == 0 {
			for id := range acked {
				if onWire[id] == 0 {
					c.Violate("message-lost", desc, "%s: %s: Send of message %v reported success but it is not on the wire", label, desc, id)
				}
			}
		}
		c.Case(desc+fmt.Sprint(label), failed && len(onWire) > 0)
		if failed {
			c.Count("transport_failures", 1)
		}
	})
}

func totalLen(us [][]sendUnit) (n int) {
	for _, l := range us {
		for _, u := range l {
			n += len(u.frame)
		}
	}
	return
}

// p05Preempt: many senders on few processors, so that the close finds most of them suspended
// somewhere inside Send.
func p05Preempt(c *mon.Ctx) {
	reps := c.N(10, 120)
	old := runtime.GOMAXPROCS(2)
	defer runtime.GOMAXPROCS(old)
	for i := 0; i < reps; i++ {
		label := fmt.Sprintf("preempt-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		end := c.Begin(label)
		cd := newFakeCodec()
		s := link.NewSession(cd, 1<<20)
		var wg sync.WaitGroup
		var sent atomic.Int64
		var bad atomic.Value
		for x := 0; x < 40; x++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := int64(0)
				defer func() { sent.Add(k) }()
				if pv, st := mon.Recover(func() {
					for {
						if err := s.Send("x"); err != nil {
							if err != link.SessionClosedError && err != link.SessionBlockedError {
								bad.Store(fmt.Sprintf("Send returned %v", err))
							}
							return
						}
						k++
					}
				}); pv != nil {
					bad.Store(fmt.Sprintf("Send panicked: %v\n%s", pv, st))
				}
			}()
		}
		time.Sleep(time.Duration(60+10*(i%9)) * time.Millisecond)
		s.Close()
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("send-blocks", nil, "%s: senders have not returned after the close\n%s", label, mon.LibStacks())
			end()
			return
		}
		if v := bad.Load(); v != nil {
			c.Violate("send-panics", nil, "%s: 40 senders on 2 processors while the session closes: %v", label, v)
		}
		c.Case(label, sent.Load() > 40)
		c.Count("sends_before_preempting_close", int(sent.Load()))
		end()
	}
}

// p05Receivers: several goroutines receive from one session.
func p05Receivers(c *mon.Ctx) {
	n := c.N(120, 3000)
	makers := unitMakers()
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("recv-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		mk := makers[r.Intn(len(makers))]
		var frames [][]byte
		var stream []byte
		for k := 0; k < 20+r.Intn(60); k++ {
			u := mk.make(1, k, r)
			frames = append(frames, u.frame)
			stream = append(stream, u.frame...)
		}
		cd, err := mk.proto.NewCodec(&segRW{data: stream, r: r, max: 1 + r.Intn(200)})
		if err != nil {
			c.Violate("codec-create", nil, "%v", err)
			return
		}
		s := link.NewSession(cd, 0)
		got := map[string]int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		nr := 2 + r.Intn(4)
		per := make([]int, nr)
		for x := 0; x < nr; x++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if pv, st := mon.Recover(func() {
					for {
						v, err := s.Receive()
						if err != nil {
							return
						}
						var b []byte
						if bb, ok := v.([]byte); ok {
							b = append(binary.BigEndian.AppendUint32(nil, uint32(len(bb))), bb...)
						} else {
							b, _ = msgBytes(v)
						}
						mu.Lock()
						got[string(b)]++
						mu.Unlock()
						per[x]++
						runtime.Gosched()
					}
				}); pv != nil {
					c.Violate("receive-panics", nil, "%s (%s): %d receivers: %v\n%s", label, mk.name, nr, pv, st)
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("receive-blocks", nil, "%s: receivers have not returned at the end of the stream\n%s", label, mon.LibStacks())
			return
		}
		for _, f := range frames {
			got[string(f)]--
		}
		for f, k := range got {
			if k != 0 {
				c.Violate("receive-disturbed", nil, "%s (%s): %d receivers: a message was received %+d times too often: %s", label, mk.name, nr, k, cutHex([]byte(f)))
				break
			}
		}
		both := 0
		for _, k := range per {
			if k > 0 {
				both++
			}
		}
		c.Case(label, both > 1)
		c.Count("messages_shared_by_receivers", len(frames))
	})
}

type p05Log struct {
	err   error
	frame []byte
}

func p05Stress(c *mon.Ctx) {
	n := c.N(500, 12000)
	makers := unitMakers()
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("stress-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		mk := makers[r.Intn(len(makers))]
		senders := 2 + r.Intn(7)
		per := 10 + r.Intn(60)
		queue := []int{0, 0, 10000, 10000, 1, 8}[r.Intn(6)]
		closeMid := r.Intn(3) == 0
		slow := r.Intn(3) == 0
		a, b, err := tcpPair()
		if err != nil {
			c.Inconclusive("%s: %v", label, err)
			return
		}
		conn := &chopConn{Conn: a, rng: rand.New(rand.NewSource(r.Int63())), chop: r.Intn(4) > 0}
		cd, err := mk.proto.NewCodec(conn)
		if err != nil {
			c.Violate("codec-create", nil, "%v", err)
			return
		}
		s := link.NewSession(cd, queue)
		cfg := map[string]any{"codec": mk.name, "queue": queue, "senders": senders, "per_sender": per, "close_midway": closeMid, "slow_peer": slow, "chopped_writes": conn.chop}
		desc := fmt.Sprint(cfg)

		units := make([][]sendUnit, senders)
		index := map[string][2]int{}
		for x := range units {
			for y := 0; y < per; y++ {
				u := mk.make(x, y, r)
				units[x] = append(units[x], u)
				index[string(u.frame)] = [2]int{x, y}
			}
		}
		// The other direction runs at the same time.
		var inbound [][]byte
		for k := 0; k < 20; k++ {
			inbound = append(inbound, mk.make(200, k, r).frame)
		}
		logs := make([][]p05Log, senders)
		var wire wireBuf
		var rd sync.WaitGroup
		rd.Add(1)
		sl := time.Duration(r.Intn(300)) * time.Microsecond
		bufN := 1 + r.Intn(3000)
		go func() {
			defer rd.Done()
			p := make([]byte, bufN)
			for {
				k, err := b.Read(p)
				wire.Write(p[:k])
				if err != nil {
					return
				}
				if slow {
					time.Sleep(sl)
				}
			}
		}()
		go func() {
			for _, f := range inbound {
				b.Write(f)
			}
		}()
		var inGot atomic.Int32
		var recvDone sync.WaitGroup
		recvDone.Add(1)
		go func() {
			defer recvDone.Done()
			for k := 0; ; k++ {
				v, err := s.Receive()
				if err != nil {
					return
				}
				var got []byte
				if bb, ok := v.([]byte); ok {
					got = append(binary.BigEndian.AppendUint32(nil, uint32(len(bb))), bb...)
				} else {
					got, _ = msgBytes(v)
				}
				if k >= len(inbound) || !bytes.Equal(got, inbound[k]) {
					c.Violate("receive-disturbed", cfg, "%s %s: message %d received while sending differs from the one the peer sent", label, desc, k)
					return
				}
				inGot.Add(1)
			}
		}()
		var wg sync.WaitGroup
		var progress atomic.Int64
		seeds := make([]int64, senders)
		for x := range seeds {
			seeds[x] = r.Int63()
		}
		for x := 0; x < senders; x++ {
			x := x
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewSource(seeds[x]))
				for _, u := range units[x] {
					var err error
					if pv, st := mon.Recover(func() { err = s.Send(u.msg) }); pv != nil {
						c.Violate("send-panics", cfg, "%s %s: Send panicked: %v\n%s", label, desc, pv, st)
						return
					}
					logs[x] = append(logs[x], p05Log{err, u.frame})
					progress.Add(1)
					if rr.Intn(8) == 0 {
						time.Sleep(time.Duration(rr.Intn(100)) * time.Microsecond)
					}
				}
			}()
		}
		closeAt := int64(0)
		if closeMid {
			closeAt = int64(r.Intn(senders * per))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for progress.Load() < closeAt && !s.IsClosed() {
					runtime.Gosched()
				}
				s.Close()
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("send-blocks", cfg, "%s %s: senders have not returned\n%s", label, desc, mon.LibStacks())
			return
		}
		accepted := 0
		blocked := false
		for _, l := range logs {
			for _, e := range l {
				switch {
				case e.err == nil:
					accepted++
				case errors.Is(e.err, link.SessionBlockedError):
					blocked = true
				case queue > 0 && !errors.Is(e.err, link.SessionClosedError):
					c.Violate("send-error", cfg, "%s %s: asynchronous Send returned %v", label, desc, e.err)
				}
			}
		}
		stays := !closeMid && !blocked
		total := 0
		if blocked && queue >= senders*per {
			c.Violate("queue-refused", cfg, "%s %s: a queue of %d reported full after %d accepted messages", label, desc, queue, accepted)
		}
		if stays {
			for _, l := range logs {
				for _, e := range l {
					if e.err != nil {
						c.Violate("send-refused", cfg, "%s %s: Send failed with %v although nothing closed the session", label, desc, e.err)
						return
					}
					total += len(e.frame)
				}
			}
			// Everything accepted must reach the peer while the session is still open.
			if !mon.Eventually(mon.Hang, func() bool { return wire.Len() >= total }) {
				c.Violate("message-lost", cfg, "%s %s: %d bytes of accepted messages, but the peer received %d while the session stayed open\n%s", label, desc, total, wire.Len(), mon.LibStacks())
				s.Close()
				return
			}
			if !mon.Eventually(mon.Hang, func() bool { return int(inGot.Load()) >= len(inbound) }) {
				c.Violate("receive-lost", cfg, "%s %s: %d of %d messages received while sending", label, desc, inGot.Load(), len(inbound))
			}
		}
		s.Close()
		if !mon.Within(mon.Hang, func() { recvDone.Wait(); rd.Wait() }) {
			c.Violate("close-leaves-connection", cfg, "%s %s: after Close the receiver or the peer still waits\n%s", label, desc, mon.LibStacks())
			return
		}
		b.Close()
		if conn.overlap.Load() > 0 {
			c.Violate("writes-overlap", cfg, "%s %s: two goroutines were inside Write of the transport at the same time", label, desc)
		}
		// offline judgement of the wire
		w := wire.Bytes()
		next := make([]int, senders)
		var order []byte
		for len(w) > 0 {
			if len(w) < 4 || len(w) < 4+int(binary.BigEndian.Uint32(w)) {
				if stays {
					c.Violate("partial-message", cfg, "%s %s: %d stray bytes at the end of the wire", label, desc, len(w))
				} else if !prefixOfUnit(index, w) {
					c.Violate("interleaved", cfg, "%s %s: the last, cut message is no prefix of a sent one: %s", label, desc, cutHex(w))
				}
				break
			}
			n := 4 + int(binary.BigEndian.Uint32(w))
			id, ok := index[string(w[:n])]
			if !ok {
				c.Violate("interleaved", cfg, "%s %s: bytes on the wire at message %d are no sent message: %s", label, desc, len(order), cutHex(w[:min(n, 200)]))
				return
			}
			w = w[n:]
			x, y := id[0], id[1]
			order = append(order, byte(x))
			l := logs[x]
			// skip entries that were refused: they may not be on the wire
			for next[x] < y && l[next[x]].err != nil {
				next[x]++
			}
			switch {
			case y < next[x]:
				c.Violate("duplicate-or-reordered", cfg, "%s %s: message %d of sender %d appears again or out of order", label, desc, y, x)
				return
			case y > next[x]:
				c.Violate("reordered-or-lost", cfg, "%s %s: message %d of sender %d is on the wire before its message %d, whose Send succeeded earlier", label, desc, y, x, next[x])
				return
			}
			if y < len(l) && l[y].err != nil && (errors.Is(l[y].err, link.SessionClosedError) || errors.Is(l[y].err, link.SessionBlockedError)) {
				c.Violate("refused-but-sent", cfg, "%s %s: Send of message %d of sender %d reported %v but it is on the wire", label, desc, y, x, l[y].err)
				return
			}
			next[x]++
		}
		if stays {
			for x := range next {
				if next[x] != len(logs[x]) {
					c.Violate("message-lost", cfg, "%s %s: sender %d: %d of %d accepted messages on the wire", label, desc, x, next[x], len(logs[x]))
				}
			}
		}
		if err := s.Send(units[0][0].msg); err == nil {
			c.Violate("send-after-close", cfg, "%s: Send on a closed session succeeded", label)
		}
		c.Case(desc+string(order), accepted >= 2)
		c.Count("messages_sent", accepted)
		c.Count("sender_switches_on_wire", switches(order))
		if closeMid {
			c.Count("closes_midway", 1)
		}
		if blocked {
			c.Count("queue_overflows", 1)
		}
		if i < 2 {
			c.Sample(cfg)
		}
	})
}

func switches(o []byte) (k int) {
	for i := 1; i < len(o); i++ {
		if o[i] != o[i-1] {
			k++
		}
	}
	return
}

func prefixOfUnit(index map[string][2]int, w []byte) bool {
	for f := range index {
		if len(f) >= len(w) && f[:len(w)] == string(w) {
			return true
		}
	}
	return false
}

// wireBuf is a byte log that can be measured while it grows.
type wireBuf struct {
	mu sync.Mutex
	b  []byte
}

func (w *wireBuf) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.b = append(w.b, p...)
	w.mu.Unlock()
	return len(p), nil
}
func (w *wireBuf) Len() int      { w.mu.Lock(); defer w.mu.Unlock(); return len(w.b) }
func (w *wireBuf) Bytes() []byte { w.mu.Lock(); defer w.mu.Unlock(); return w.b }

// p05Stuck: the peer never reads. Senders block in the transport (sync) or run into a full queue
// (async); Close releases all of them.
func p05Stuck(c *mon.Ctx) {
	n := c.N(60, 1200)
	makers := unitMakers()
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("stuck-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		mk := makers[i%len(makers)]
		queue := []int{0, 1, 4, 64}[r.Intn(4)]
		a, b := net.Pipe() // unbuffered: a write blocks until read
		cd, err := mk.proto.NewCodec(a)
		if err != nil {
			c.Violate("codec-create", nil, "%v", err)
			return
		}
		s := link.NewSession(cd, queue)
		senders := 1 + r.Intn(6)
		var started, ok, blockedN, closedN, other atomic.Int32
		var wg sync.WaitGroup
		us := make([]sendUnit, senders)
		for x := range us {
			us[x] = mk.make(x, 1, r)
		}
		for x := 0; x < senders; x++ {
			x := x
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < queue+3; k++ {
					started.Add(1)
					var err error
					if pv, st := mon.Recover(func() { err = s.Send(us[x].msg) }); pv != nil {
						c.Violate("send-panics", nil, "%s: %v\n%s", label, pv, st)
						return
					}
					switch {
					case err == nil:
						ok.Add(1)
					case errors.Is(err, link.SessionBlockedError):
						blockedN.Add(1)
					case errors.Is(err, link.SessionClosedError):
						closedN.Add(1)
					default:
						other.Add(1)
					}
				}
			}()
		}
		for started.Load() < int32(senders) {
			runtime.Gosched()
		}
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		how := "close"
		if r.Intn(2) == 0 {
			how = "peer-closes"
			b.Close()
		} else {
			if !mon.Within(mon.Hang, func() { s.Close() }) {
				c.Violate("close-blocks", nil, "%s: Close does not return while a sender waits for the peer\n%s", label, mon.LibStacks())
				return
			}
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("send-blocks", nil, "%s (%s, queue %d): senders stay blocked after the session ended\n%s", label, how, queue, mon.LibStacks())
			return
		}
		if queue > 0 && other.Load() > 0 {
			c.Violate("send-error", nil, "%s: %d asynchronous sends returned another error", label, other.Load())
		}
		if queue > 0 && int(ok.Load()) > queue+2 {
			c.Violate("queue-overrun", nil, "%s: %d sends accepted with a queue of %d and a peer that reads nothing", label, ok.Load(), queue)
		}
		if queue > 0 && how == "close" && blockedN.Load() == 0 && closedN.Load() == 0 {
			c.Violate("send-silent", nil, "%s: no send reported the full queue or the close", label)
		}
		if !mon.Eventually(mon.Hang, s.IsClosed) {
			c.Violate("not-closed", nil, "%s: session open after %s", label, how)
		}
		b.Close()
		_, _ = io.Copy(io.Discard, b)
		c.Case(fmt.Sprint(label, mk.name, queue, senders, how), true)
		c.Count("stuck_peer_cases", 1)
	})
}
