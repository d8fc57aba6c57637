package props

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

// ep is one library endpoint under test and the harness's side of its connections.
type ep struct {
	P       *hsms.HsmsProtocol
	Active  bool
	Host    string
	Port    int
	Session uint16

	L *peer.Listener // active endpoints connect here

	hook       atomic.Pointer[func(*peer.Peer, ref.Msg) bool]
	selStatus  atomic.Int32 // status the harness answers select.req with; -1: no answer
	selCount   atomic.Int32
	noDesel    atomic.Bool // leave deselect.req unanswered
	noAutoLink bool

	mu    sync.Mutex
	peers []*peer.Peer
}

// newEp makes an endpoint with timers that stay out of the way.
func newEp(active bool, session uint16, cfg func(*hsms.SecsTimeout)) (*ep, error) {
	e := &ep{Active: active, Session: session}
	e.Host, e.Port = peer.Addr()
	e.P = hsms.NewHsmsProtocol(e.Host, e.Port, active, int(session), "ep")
	t := e.P.Timeouts()
	t.SetT3ReplyTimeout(120)
	t.SetT5ConnSeparateTimeout(0)
	t.SetT6ControlTransTimeout(60)
	t.SetT7NotSelectTimeout(600)
	t.SetT8NetworkIntercharTimeout(600)
	t.SetLinktest(0)
	t.SetMaxReconnectAttempts(0)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
	if cfg != nil {
		cfg(t)
	}
	if active {
		if err := e.listen(); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *ep) addr() string { return peer.HostPort(e.Host, e.Port) }

func (e *ep) opts() []peer.Opt {
	o := []peer.Opt{peer.WithSession(e.Session), peer.WithHook(e.onMsg)}
	if e.noAutoLink {
		o = append(o, peer.NoAutoLink)
	}
	return o
}

func (e *ep) listen() (err error) {
	e.L, err = peer.Listen(e.addr(), e.opts()...)
	return err
}

func (e *ep) onMsg(p *peer.Peer, m ref.Msg) bool {
	if h := e.hook.Load(); h != nil && (*h)(p, m) {
		return true
	}
	if m.PType == 0 && m.SType == ref.SelectReq {
		e.selCount.Add(1)
		if st := e.selStatus.Load(); st >= 0 {
			r := ref.Ctrl(ref.SelectRsp, m.Session, m.Sys)
			r.Byte3 = byte(st)
			p.Send(r)
		}
		return true
	}
	if m.PType == 0 && m.SType == ref.DeselectReq && !e.noDesel.Load() {
		p.Send(ref.Ctrl(ref.DeselectRsp, m.Session, m.Sys))
		return true
	}
	return false
}

func (e *ep) setHook(h func(*peer.Peer, ref.Msg) bool) { e.hook.Store(&h) }

// connect gets the next connection (not selected yet on a passive endpoint).
func (e *ep) connect(d time.Duration) (*peer.Peer, error) {
	var p *peer.Peer
	var err error
	if e.Active {
		var ok bool
		if p, ok = e.L.Accept(d); !ok {
			return nil, errors.New("no connection attempt")
		}
	} else if p, err = peer.Dial(e.addr(), d, e.opts()...); err != nil {
		return nil, err
	}
	e.mu.Lock()
	e.peers = append(e.peers, p)
	e.mu.Unlock()
	return p, nil
}

// up connects and selects.
func (e *ep) up(d time.Duration) (*peer.Peer, error) {
	end := time.Now().Add(d)
	for {
		p, err := e.connect(d)
		if err != nil {
			return nil, err
		}
		if !e.Active {
			err = p.Select(d)
		}
		if err == nil && mon.Eventually(d, func() bool { return e.selected() || p.Closed() }) && e.selected() && !p.Closed() {
			return p, nil
		}
		// a connection made while the endpoint was replacing its listener is reset: try again
		p.WaitClosed(time.Second)
		if time.Now().After(end) || !p.Closed() {
			return nil, fmt.Errorf("not selected: %v, state %s", err, e.P.CurrentState())
		}
	}
}

// anySession is a session ID an endpoint can have, often with a high bit set.
func anySession(r *rand.Rand) uint16 {
	if r.Intn(3) == 0 {
		return uint16(0x8000 + r.Intn(0x7FFE))
	}
	return uint16(r.Intn(0x7FFF) + 1)
}

func (e *ep) selected() bool { return e.P.CurrentState() == hsms.StateConnectedSelected }

func (e *ep) close() {
	if !mon.Within(mon.Hang, e.P.Disable) {
		fmt.Fprintf(os.Stderr, "harness: Disable did not return within %v\n%s\n", mon.Hang, mon.LibStacks())
		if os.Getenv("VERIF_DEBUG") != "" {
			os.WriteFile("/tmp/disable-hang.txt", []byte(mon.LibStacks()), 0o644)
		}
	}
	if e.L != nil {
		e.L.Close()
	}
	e.mu.Lock()
	for _, p := range e.peers {
		p.Close()
	}
	e.mu.Unlock()
}

func role(active bool) string {
	if active {
		return "active"
	}
	return "passive"
}

// wireOf is the reference view of a library data message.
func wireOf(m *ast.DataMessage) (ref.Msg, error) {
	b := m.ToBytes()
	if len(b) == 0 {
		return ref.Msg{}, errors.New("message has no encoding")
	}
	return ref.ParseMsg(b)
}

// dataNode builds a library message (session and system bytes are set on sending).
func dataNode(stream, function int, wait int, it ref.Item) *ast.DataMessage {
	var n ast.ItemNode = ast.NewEmptyItemNode()
	if it.K != ref.None {
		n = ref.ToAST(it)
	}
	return ast.NewDataMessage("", stream, function, wait, "H<->E", n)
}

// perturb is a library logger that slows the code under test at its log statements: a little
// everywhere, and for a while where one of the given texts is logged.
type perturb struct {
	mu   sync.Mutex
	r    *rand.Rand
	max  time.Duration
	at   map[string]time.Duration
	hits atomic.Int64
}

func (l *perturb) log(msg string, kv []interface{}) {
	for _, v := range kv {
		if t, ok := v.(string); ok {
			msg += " " + t
		}
	}
	l.mu.Lock()
	var d time.Duration
	if l.max > 0 && l.r.Intn(3) == 0 {
		d = time.Duration(l.r.Int63n(int64(l.max)))
	}
	for k, v := range l.at {
		if strings.Contains(msg, k) {
			d = v
		}
	}
	l.mu.Unlock()
	if d > 0 {
		l.hits.Add(1)
		time.Sleep(d)
	}
}
func (l *perturb) Debug(m string, kv ...interface{}) { l.log(m, kv) }
func (l *perturb) Info(m string, kv ...interface{})  { l.log(m, kv) }
func (l *perturb) Warn(m string, kv ...interface{})  { l.log(m, kv) }
func (l *perturb) Error(m string, kv ...interface{}) { l.log(m, kv) }

// stall watches how late the harness's own sleeps end; timing expectations that need the machine
// to keep up are given up when it does not.
type stall struct{ worst atomic.Int64 }

func (s *stall) sleep(d time.Duration) {
	t := time.Now()
	time.Sleep(d)
	if late := int64(time.Since(t) - d); late > s.worst.Load() {
		s.worst.Store(late)
	}
}

func (s *stall) late() time.Duration { return time.Duration(s.worst.Load()) }
