// Package peer is a raw-TCP HSMS endpoint used as the other side of the code under test. It speaks
// HSMS from the reference implementation, records everything it sent and received in order, and
// can misbehave on demand.
package peer

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/ref"
)

// Ev is one recorded wire event.
type Ev struct {
	Seq  int64
	Dir  string // "tx", "rx", "closed"
	Msg  ref.Msg
	Time time.Time
}

var seq atomic.Int64

func NextSeq() int64 { return seq.Add(1) }

type Peer struct {
	Conn    net.Conn
	Session uint16

	mu     sync.Mutex
	cond   *sync.Cond
	in     []Ev // everything received
	closed bool
	cerr   error
	badFr  error // a frame the reference cannot accept as a frame
	wmu    sync.Mutex
	txLog  []Ev
	sys    atomic.Uint32
	pause  sync.Mutex // held: no reading

	// AutoLink answers linktest.req; AutoSelect answers select.req with the status given.
	AutoLink bool
	// Hook, when set, sees every received message first; true means consumed (still logged).
	Hook func(p *Peer, m ref.Msg) bool
}

type Opt func(*Peer)

func NoAutoLink(p *Peer)                       { p.AutoLink = false }
func WithHook(h func(*Peer, ref.Msg) bool) Opt { return func(p *Peer) { p.Hook = h } }
func WithSession(s uint16) Opt                 { return func(p *Peer) { p.Session = s } }

func New(conn net.Conn, opts ...Opt) *Peer {
	p := &Peer{Conn: conn, AutoLink: true, Session: 0xFFFF}
	p.cond = sync.NewCond(&p.mu)
	p.sys.Store(0x70000000)
	for _, o := range opts {
		o(p)
	}
	go p.readLoop()
	return p
}

// Dial connects to a passive endpoint, retrying until it listens.
func Dial(addr string, within time.Duration, opts ...Opt) (*Peer, error) {
	end := time.Now().Add(within)
	for {
		c, err := net.DialTimeout("tcp", addr, 2*time.Second)
		if err == nil {
			return New(c, opts...), nil
		}
		if time.Now().After(end) {
			return nil, err
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (p *Peer) NextSys() uint32 { return p.sys.Add(1) }
func (p *Peer) SetSys(v uint32) { p.sys.Store(v) }

func (p *Peer) readLoop() {
	for {
		p.pause.Lock()
		p.pause.Unlock()
		m, err := readFrame(p.Conn)
		p.mu.Lock()
		if err != nil {
			p.closed = true
			p.cerr = err
			if errors.Is(err, errBadFrame) {
				p.badFr = err
			}
			p.in = append(p.in, Ev{Seq: NextSeq(), Dir: "closed", Time: time.Now()})
			p.cond.Broadcast()
			p.mu.Unlock()
			return
		}
		p.in = append(p.in, Ev{Seq: NextSeq(), Dir: "rx", Msg: m, Time: time.Now()})
		p.mu.Unlock()
		if p.Hook != nil && p.Hook(p, m) {
			// consumed by the hook; still in the log
		} else if p.AutoLink && m.SType == ref.LinktestReq {
			p.Send(ref.Ctrl(ref.LinktestRsp, 0xFFFF, m.Sys))
		}
		p.cond.Broadcast()
	}
}

var errBadFrame = errors.New("bad frame")

func readFrame(r io.Reader) (ref.Msg, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return ref.Msg{}, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 10 || n > 64<<20 {
		return ref.Msg{}, fmt.Errorf("%w: length field %d", errBadFrame, n)
	}
	b := make([]byte, 4+n)
	copy(b, h[:])
	if _, err := io.ReadFull(r, b[4:]); err != nil {
		return ref.Msg{}, err
	}
	return ref.ParseMsg(b)
}

func (p *Peer) Send(m ref.Msg) error { return p.SendRaw(m.Bytes(), m) }

func (p *Peer) SendRaw(b []byte, m ref.Msg) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.mu.Lock()
	p.txLog = append(p.txLog, Ev{Seq: NextSeq(), Dir: "tx", Msg: m, Time: time.Now()})
	p.mu.Unlock()
	p.Conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
	_, err := p.Conn.Write(b)
	return err
}

// Await returns the first received message satisfying pred, from the start of the log.
func (p *Peer) Await(d time.Duration, pred func(ref.Msg) bool) (ref.Msg, bool) {
	return p.AwaitFrom(0, d, pred)
}

// wait blocks until cond (evaluated under the lock) or the deadline.
func (p *Peer) wait(d time.Duration, cond func() bool) bool {
	timer := time.AfterFunc(d, func() { p.mu.Lock(); p.cond.Broadcast(); p.mu.Unlock() })
	defer timer.Stop()
	end := time.Now().Add(d)
	p.mu.Lock()
	defer p.mu.Unlock()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		p.cond.Wait()
	}
	return true
}

// WaitFor blocks until n received messages satisfy pred, the connection closes, or d passes.
func (p *Peer) WaitFor(d time.Duration, n int, pred func(ref.Msg) bool) bool {
	count := func() int {
		k := 0
		for _, e := range p.in {
			if e.Dir == "rx" && pred(e.Msg) {
				k++
			}
		}
		return k
	}
	p.wait(d, func() bool { return p.closed || count() >= n })
	p.mu.Lock()
	defer p.mu.Unlock()
	return count() >= n
}

// Mark returns a position in the receive log for use with Since.
func (p *Peer) Mark() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.in)
}

// AwaitFrom is Await restricted to events at or after mark.
func (p *Peer) AwaitFrom(mark int, d time.Duration, pred func(ref.Msg) bool) (ref.Msg, bool) {
	var got ref.Msg
	found := false
	p.wait(d, func() bool {
		for i := mark; i < len(p.in); i++ {
			if p.in[i].Dir == "rx" && pred(p.in[i].Msg) {
				got, found = p.in[i].Msg, true
				return true
			}
		}
		return p.closed
	})
	return got, found
}

// WaitClosed reports whether the other side closed the connection within d.
func (p *Peer) WaitClosed(d time.Duration) bool {
	return p.wait(d, func() bool { return p.closed })
}

func (p *Peer) Closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// BadFrame returns a framing error seen on the wire, if any.
func (p *Peer) BadFrame() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.badFr
}

func (p *Peer) Received() []Ev {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Ev(nil), p.in...)
}

func (p *Peer) ReceivedFrom(mark int) []Ev {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Ev(nil), p.in[mark:]...)
}

// Data returns the received data messages.
func (p *Peer) Data() []ref.Msg {
	var out []ref.Msg
	for _, e := range p.Received() {
		if e.Dir == "rx" && e.Msg.PType == 0 && e.Msg.SType == ref.Data {
			out = append(out, e.Msg)
		}
	}
	return out
}

// Sent returns what was sent, in order.
func (p *Peer) Sent() []Ev {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]Ev(nil), p.txLog...)
}

// Pause stops reading after the next message; Resume goes on.
func (p *Peer) Pause()  { p.pause.Lock() }
func (p *Peer) Resume() { p.pause.Unlock() }

func (p *Peer) Close() { p.Conn.Close() }

// Reset closes with RST.
func (p *Peer) Reset() {
	if t, ok := p.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	p.Conn.Close()
}

// Select performs select.req and waits for an accepting select.rsp.
func (p *Peer) Select(d time.Duration) error {
	sys := p.NextSys()
	mark := p.Mark()
	if err := p.Send(ref.Ctrl(ref.SelectReq, p.Session, sys)); err != nil {
		return err
	}
	m, ok := p.AwaitFrom(mark, d, func(m ref.Msg) bool { return m.SType == ref.SelectRsp && m.Sys == sys })
	if !ok {
		return fmt.Errorf("no select.rsp (closed=%v)", p.Closed())
	}
	if m.Byte3 != 0 {
		return fmt.Errorf("select.rsp status %d", m.Byte3)
	}
	return nil
}

// Request sends a primary and waits for the message carrying its system bytes.
func (p *Peer) Request(d time.Duration, stream, function int, it ref.Item) (ref.Msg, error) {
	sys := p.NextSys()
	mark := p.Mark()
	if err := p.Send(ref.DataMsg(p.Session, stream, function, true, sys, it)); err != nil {
		return ref.Msg{}, err
	}
	m, ok := p.AwaitFrom(mark, d, func(m ref.Msg) bool { return m.SType == ref.Data && m.PType == 0 && m.Sys == sys })
	if !ok {
		return m, fmt.Errorf("no reply to S%dF%d within %v (closed=%v)", stream, function, d, p.Closed())
	}
	return m, nil
}

// Linktest sends linktest.req and reports whether the matching rsp arrived. Because the endpoint
// handles incoming messages in order, it is also a barrier behind everything sent before.
func (p *Peer) Linktest(d time.Duration) bool {
	sys := p.NextSys()
	mark := p.Mark()
	if p.Send(ref.Ctrl(ref.LinktestReq, 0xFFFF, sys)) != nil {
		return false
	}
	_, ok := p.AwaitFrom(mark, d, func(m ref.Msg) bool { return m.SType == ref.LinktestRsp && m.Sys == sys })
	return ok
}

func (p *Peer) Log(n int) []string {
	p.mu.Lock()
	all := append(append([]Ev(nil), p.in...), p.txLog...)
	p.mu.Unlock()
	// merge by Seq
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && all[j].Seq < all[j-1].Seq; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	if len(all) > n {
		all = all[len(all)-n:]
	}
	var out []string
	for _, e := range all {
		if e.Dir == "closed" {
			out = append(out, "closed")
		} else {
			out = append(out, e.Dir+" "+e.Msg.String())
		}
	}
	return out
}

// Listener accepts connections from an active endpoint.
type Listener struct {
	L    net.Listener
	Opts []Opt
	ch   chan *Peer

	closed atomic.Bool
}

func Listen(addr string, opts ...Opt) (*Listener, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	ls := &Listener{L: l, Opts: opts, ch: make(chan *Peer, 256)}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			ls.ch <- New(c, opts...)
			if ls.closed.Load() {
				ls.drain()
			}
		}
	}()
	return ls, nil
}

func (l *Listener) Accept(d time.Duration) (*Peer, bool) {
	select {
	case p := <-l.ch:
		return p, true
	case <-time.After(d):
		return nil, false
	}
}

// Close stops listening and ends the connections nobody has accepted.
func (l *Listener) Close() {
	l.closed.Store(true)
	l.L.Close()
	l.drain()
}

func (l *Listener) drain() {
	for {
		select {
		case p := <-l.ch:
			p.Close()
		default:
			return
		}
	}
}

var portCtr atomic.Int32
var hostCtr atomic.Int32

// Addr returns a loopback host and port not in use by this process: every call gets its own
// 127.x.y.z address, so cases do not disturb each other.
func Addr() (string, int) {
	for {
		n := int(hostCtr.Add(1))
		host := fmt.Sprintf("127.%d.%d.%d", 10+(n>>14)%200, (n>>7)&0x7F, 1+n&0x7F)
		port := 20001 + int(portCtr.Add(1))%9000
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, port))
		if err != nil {
			continue
		}
		l.Close()
		return host, port
	}
}

func HostPort(h string, p int) string { return fmt.Sprintf("%s:%d", h, p) }
