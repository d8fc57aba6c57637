package props

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P06", Run: p06,
		Rule:   "histories of close, receive error, send error, callback registration and removal on one session over an instrumented codec; each registration counts its runs; non-trivial when a close overlapped another operation or at least one callback was removed; distinct by history",
		Assume: []string{"callbacks run asynchronously after Close returns; they are awaited up to 40 s", "a registration or removal that overlaps the close may fall on either side of it"}})
}

// fakeCodec blocks in Receive until closed or told to fail.
type fakeCodec struct {
	closed   atomic.Int32
	done     chan struct{}
	recvErr  chan error
	sendErr  atomic.Bool
	sends    atomic.Int32
	closeErr error
	onClose  func()
	cleared  atomic.Int32
	partial  bool // a failed Receive returns a value, too
}

func newFakeCodec() *fakeCodec {
	return &fakeCodec{done: make(chan struct{}), recvErr: make(chan error, 64)}
}
func (f *fakeCodec) Receive() (interface{}, error) {
	select {
	case <-f.done:
		return nil, errors.New("codec closed")
	default:
	}
	select {
	case e := <-f.recvErr:
		if e == nil {
			return "msg", nil
		}
		if f.partial {
			return []byte{}, e // what the Byte codec does
		}
		return nil, e
	case <-f.done:
		return nil, errors.New("codec closed")
	}
}
func (f *fakeCodec) Send(interface{}) error {
	f.sends.Add(1)
	if f.sendErr.Load() || f.closed.Load() > 0 {
		return errors.New("send failed")
	}
	return nil
}
func (f *fakeCodec) Close() error {
	if f.closed.Add(1) == 1 {
		close(f.done)
	}
	if f.onClose != nil {
		f.onClose()
	}
	return f.closeErr
}

func p06(c *mon.Ctx) {
	p06List(c)
	p06Conc(c)
	p06Reentrant(c)
	p06Transport(c)
}

// closeConn counts the closes of a transport.
type closeConn struct {
	net.Conn
	closes atomic.Int32
}

func (cc *closeConn) Close() error { cc.closes.Add(1); return cc.Conn.Close() }

// p06Transport: the end of a session ends its transport, through every codec stack.
func p06Transport(c *mon.Ctx) {
	fix := func(p link.Protocol) link.Protocol { return codec.FixLen(p, 2, leOrder, 1024, 1024) }
	base := map[string]link.Protocol{"SECSII": codec.SECSII(), "Byte": codec.Byte(), "Json": codec.Json(), "FixLen(Byte)": fix(codec.Byte()), "FixLen(Json)": fix(codec.Json())}
	for name, b := range base {
		for _, sz := range [][2]int{{-1, -1}, {0, 0}, {64, 0}, {0, 64}, {64, 64}} {
			for how := 0; how < 3; how++ {
				for _, queue := range []int{0, 4} {
					p := b
					if sz[0] >= 0 {
						p = codec.Bufio(b, sz[0], sz[1])
					}
					label := fmt.Sprintf("transport-%s-%v-%d-%d", name, sz, how, queue)
					if c.Skip(label) {
						continue
					}
					end := c.Begin(label)
					near, far := net.Pipe()
					cc := &closeConn{Conn: near}
					cd, err := p.NewCodec(cc)
					if err != nil {
						c.Violate("codec-create", label, "%s: %v", label, err)
						end()
						continue
					}
					s := link.NewSession(cd, queue)
					var runs atomic.Int32
					s.AddCloseCallback(1, 1, func() { runs.Add(1) })
					switch how {
					case 0:
						if err := s.Close(); err != nil {
							c.Violate("no-close-succeeds", label, "%s: Close: %v", label, err)
						}
					case 1: // the peer leaves
						far.Close()
						mon.Within(mon.Hang, func() { s.Receive() })
					case 2: // nonsense to send
						if queue == 0 || name != "Json" && name != "FixLen(Json)" {
							s.Send(make(chan int))
						} else {
							s.Send(func() {})
						}
					}
					if !mon.Eventually(mon.Hang, func() bool { return s.IsClosed() && runs.Load() > 0 && cc.closes.Load() > 0 }) {
						c.Violate("transport-left-open", label, "%s: session closed %v, callbacks run %d, transport closed %d times", label, s.IsClosed(), runs.Load(), cc.closes.Load())
						end()
						far.Close()
						continue
					}
					if runs.Load() != 1 {
						c.Violate("callback-count", label, "%s: callback ran %d times", label, runs.Load())
					}
					far.SetReadDeadline(time.Now().Add(mon.Hang))
					if _, err := io.Copy(io.Discard, far); err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
						c.Violate("transport-left-open", label, "%s: the peer still waits", label)
					}
					far.Close()
					p06Dead(c, label, s)
					c.Case(label, true)
					c.Count("transports_closed", 1)
					end()
				}
			}
		}
	}
}

type p06reg struct {
	h, k    int
	runs    atomic.Int32
	certain bool // Add returned before any close could start
	removed bool // Remove returned before any close could start
}

func newSess(r *rand.Rand, cd link.Codec) (*link.Session, *link.Manager) {
	q := []int{0, 0, 64}[r.Intn(3)]
	switch r.Intn(3) {
	case 0:
		return link.NewSession(cd, q), nil
	case 1:
		return link.NewSessionWithId(cd, q, uint64(r.Int63())), nil
	}
	m := link.NewManager()
	return m.NewSession(cd, q), m
}

// p06List: sequential registration histories (shared handlers and keys included), then one close.
func p06List(c *mon.Ctx) {
	n := c.N(1500, 60000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("list-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		cd := newFakeCodec()
		s, _ := newSess(r, cd)
		var regs []*p06reg // all ever made
		var live []*p06reg // model list
		hist := ""
		nh, nk := 1+r.Intn(3), 1+r.Intn(3)
		removals := 0
		for o := 0; o < 1+r.Intn(16); o++ {
			h, k := r.Intn(nh), r.Intn(nk)
			if r.Intn(5) < 3 {
				g := &p06reg{h: h, k: k}
				s.AddCloseCallback(h, fmt.Sprint(k), func() { g.runs.Add(1) })
				regs = append(regs, g)
				live = append(live, g)
				hist += fmt.Sprintf("+%d%d", h, k)
			} else {
				s.RemoveCloseCallback(h, fmt.Sprint(k))
				for x, g := range live {
					if g.h == h && g.k == k {
						live = append(live[:x:x], live[x+1:]...)
						g.removed = true
						removals++
						break
					}
				}
				hist += fmt.Sprintf("-%d%d", h, k)
			}
		}
		how := r.Intn(4)
		switch how {
		case 0:
			s.Close()
		case 1:
			cd.partial = r.Intn(2) == 0
			cd.recvErr <- errors.New("line broken")
			s.Receive()
		case 2:
			cd.sendErr.Store(true)
			s.Send("x")
		case 3:
			s.Close()
			s.Close()
		}
		hist += fmt.Sprint(" end", how)
		if !mon.Eventually(mon.Hang, func() bool {
			for _, g := range live {
				if g.runs.Load() == 0 {
					return false
				}
			}
			return s.IsClosed()
		}) {
			c.Violate("callback-never-runs", hist, "%s: %s: a registered callback has not run\n%s", label, hist, mon.LibStacks())
			return
		}
		// per (handler,key) the number of runs equals registrations minus removals; which of equal
		// registrations a removal takes is not observable to a caller
		for h := 0; h < nh; h++ {
			for k := 0; k < nk; k++ {
				want, got := 0, 0
				for _, g := range regs {
					if g.h == h && g.k == k {
						got += int(g.runs.Load())
						if g.runs.Load() > 1 {
							c.Violate("callback-twice", hist, "%s: %s: one registration ran %d times", label, hist, g.runs.Load())
						}
						if !g.removed {
							want++
						}
					}
				}
				if got != want {
					c.Violate("callback-count", hist, "%s: %s: (handler %d, key %d): %d runs, %d registered and not removed", label, hist, h, k, got, want)
					return
				}
			}
		}
		if !mon.Eventually(mon.Hang, func() bool { return cd.closed.Load() > 0 }) || cd.closed.Load() != 1 {
			c.Violate("codec-closes", hist, "%s: codec closed %d times", label, cd.closed.Load())
		}
		p06Dead(c, label, s)
		c.Case(hist, removals > 0)
		c.Count("registrations", len(regs))
		if i < 2 {
			c.Sample(hist)
		}
	})
}

// p06Dead checks that a closed session refuses everything.
func p06Dead(c *mon.Ctx, label string, s *link.Session) {
	if !s.IsClosed() {
		c.Violate("not-closed", nil, "%s: IsClosed is false after the close", label)
	}
	if err := s.Close(); err == nil {
		c.Violate("second-close-succeeds", nil, "%s: a later Close reported success", label)
	}
	var err error
	if !mon.Within(mon.Hang, func() { err = s.Send("late") }) || err == nil {
		c.Violate("send-after-close", nil, "%s: Send after the close: %v", label, err)
	}
	if !mon.Within(mon.Hang, func() { _, err = s.Receive() }) || err == nil {
		c.Violate("receive-after-close", nil, "%s: Receive after the close: %v", label, err)
	}
}

func p06Conc(c *mon.Ctx) {
	n := c.N(1200, 40000)
	mon.Parallel(6, n, func(i int) {
		label := fmt.Sprintf("conc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		cd := newFakeCodec()
		s, m := newSess(r, cd)
		nPre := r.Intn(6)
		var pre []*p06reg
		for k := 0; k < nPre; k++ {
			g := &p06reg{h: 0, k: k, certain: true}
			s.AddCloseCallback(0, k, func() { g.runs.Add(1) })
			pre = append(pre, g)
		}
		for k := 0; k < nPre; k++ {
			if r.Intn(4) == 0 {
				s.RemoveCloseCallback(0, k)
				pre[k].removed = true
			}
		}
		closers, adders := 1+r.Intn(4), r.Intn(4)
		recvErr, sendErr := r.Intn(3) == 0, r.Intn(3) == 0
		var okCloses atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		spawn := func(fn func()) {
			wg.Add(1)
			jit := time.Duration(r.Intn(60)) * time.Microsecond
			go func() {
				defer wg.Done()
				<-start
				if jit > 20*time.Microsecond {
					for t := time.Now(); time.Since(t) < jit; {
						runtime.Gosched()
					}
				}
				if pv, st := mon.Recover(fn); pv != nil {
					c.Violate("session-panics", nil, "%s: %v\n%s", label, pv, st)
				}
			}()
		}
		for k := 0; k < closers; k++ {
			spawn(func() {
				if s.Close() == nil {
					okCloses.Add(1)
				}
			})
		}
		if recvErr {
			cd.recvErr <- errors.New("broken")
		}
		spawn(func() { s.Receive() })
		if sendErr {
			cd.sendErr.Store(true)
		}
		for k := 0; k < 2; k++ {
			spawn(func() {
				for j := 0; j < 4; j++ {
					s.Send("x")
				}
			})
		}
		var mid []*p06reg
		for k := 0; k < adders; k++ {
			g := &p06reg{h: 1, k: k}
			mid = append(mid, g)
			k := k
			spawn(func() { s.AddCloseCallback(1, k, func() { g.runs.Add(1) }) })
		}
		if adders > 0 {
			spawn(func() { s.RemoveCloseCallback(1, 0) })
		}
		var midRm *p06reg
		if nPre > 0 && !pre[nPre-1].removed && r.Intn(2) == 0 {
			midRm = pre[nPre-1]
			spawn(func() { s.RemoveCloseCallback(0, nPre-1) })
		}
		close(start)
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("deadlock", nil, "%s: close/add/remove/send/receive did not all return\n%s", label, mon.LibStacks())
			return
		}
		if !mon.Eventually(mon.Hang, func() bool {
			for _, g := range pre {
				if !g.removed && g != midRm && g.runs.Load() == 0 {
					return false
				}
			}
			return m == nil || m.GetSession(s.ID()) == nil
		}) {
			c.Violate("callback-never-runs", nil, "%s: a callback registered before the close has not run, or the manager still finds the session\n%s", label, mon.LibStacks())
			return
		}
		runtime.Gosched()
		for _, g := range append(append([]*p06reg(nil), pre...), mid...) {
			if v := g.runs.Load(); v > 1 || v > 0 && g.removed {
				c.Violate("callback-count", nil, "%s: callback (%d,%d) ran %d times (removed before the close: %v)", label, g.h, g.k, v, g.removed)
			}
		}
		mon.Eventually(mon.Hang, func() bool { return cd.closed.Load() > 0 })
		if v := cd.closed.Load(); v != 1 {
			c.Violate("codec-closes", nil, "%s: codec closed %d times", label, v)
		}
		if v := okCloses.Load(); v > 1 {
			c.Violate("two-closes-succeed", nil, "%s: %d Close calls reported success", label, v)
		} else if v == 0 && !recvErr && !sendErr {
			c.Violate("no-close-succeeds", nil, "%s: no Close call reported success though nothing else closed the session", label)
		}
		p06Dead(c, label, s)
		c.Case(fmt.Sprint(label, closers, adders, recvErr, sendErr, okCloses.Load()), true)
		c.Count("concurrent_closes", closers)
	})
}

// Callbacks that use the session, its channel, its manager, and wait for other goroutines doing so.
func p06Reentrant(c *mon.Ctx) {
	n := c.N(300, 6000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("reent-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		cd := newFakeCodec()
		s, m := newSess(r, cd)
		ch := link.NewChannel()
		if r.Intn(2) == 0 {
			ch.Put("k", s)
		}
		var ran atomic.Int32
		acts := []string{}
		nCb := 1 + r.Intn(5)
		for k := 0; k < nCb; k++ {
			act := r.Intn(9)
			acts = append(acts, fmt.Sprint(act))
			async := r.Intn(2) == 0
			s.AddCloseCallback(9, k, func() {
				fn := func() {
					switch act {
					case 0:
						s.Close()
					case 1:
						s.AddCloseCallback(9, "new", func() {})
					case 2:
						s.RemoveCloseCallback(9, 0)
					case 3:
						s.Send("x")
					case 4:
						s.Receive()
					case 5:
						ch.Remove("k")
					case 6:
						ch.Len()
						ch.Get("k")
					case 7:
						if m != nil {
							m.GetSession(s.ID())
						}
					case 8:
						if s2, _ := newSess(rand.New(rand.NewSource(1)), newFakeCodec()); s2 != nil {
							ch.Put("k", s2)
						}
					}
				}
				if async {
					d := make(chan struct{})
					go func() { fn(); close(d) }()
					<-d
				} else {
					fn()
				}
				ran.Add(1)
			})
		}
		if r.Intn(2) == 0 {
			// the codec's own Close may use the session, too
			cd.onClose = func() { s.IsClosed(); s.Close(); s.RemoveCloseCallback(1, 1) }
		}
		var closeErr error
		if !mon.Within(mon.Hang, func() { closeErr = s.Close() }) {
			c.Violate("deadlock", acts, "%s: Close does not return with callbacks %v\n%s", label, acts, mon.LibStacks())
			return
		}
		if closeErr != nil {
			c.Violate("no-close-succeeds", acts, "%s: the only Close reported %v", label, closeErr)
		}
		if !mon.Eventually(mon.Hang, func() bool { return int(ran.Load()) >= nCb }) {
			c.Violate("deadlock", acts, "%s: %d of %d callbacks (actions %v) finished\n%s", label, ran.Load(), nCb, acts, mon.LibStacks())
			return
		}
		if int(ran.Load()) != nCb {
			c.Violate("callback-count", acts, "%s: %d runs of %d callbacks", label, ran.Load(), nCb)
		}
		c.Case(fmt.Sprint("re", acts), true)
	})
}
