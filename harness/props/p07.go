package props

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"

	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P07", Run: p07,
		Rule:   "histories on managers, channels and servers checked against a sequential model step by step, or against the quiescent-state invariants after concurrent runs; non-trivial when at least one session ended while held; distinct by history",
		Assume: []string{"callbacks of a closing session run asynchronously; the resulting state is awaited up to 40 s", "Dispose is not called from a close callback of one of its own sessions, and Fetch callbacks do not modify the channel (both deadlock by design)"}})
}

func p07(c *mon.Ctx) {
	p07Channel(c)
	p07ChannelConc(c)
	p07Manager(c)
	p07ManagerConc(c)
	p07Server(c)
	p07Single(c)
	p07Stalled(c)
	p07Flaky(c)
}

// tempErr is a temporary accept failure, such as running out of file descriptors.
type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// flakyListener fails before some of its accepts.
type flakyListener struct {
	net.Listener
	plan []bool
	n    atomic.Int32
}

func (l *flakyListener) Accept() (net.Conn, error) {
	if k := int(l.n.Add(1)) - 1; k < len(l.plan) && l.plan[k] {
		return nil, tempErr{}
	}
	return l.Listener.Accept()
}

// p07Flaky: temporary accept failures between connections.
func p07Flaky(c *mon.Ctx) {
	n := c.N(16, 120)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("flaky-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Inconclusive("%s: listen: %v", label, err)
			return
		}
		fl := &flakyListener{Listener: ln}
		for k := 0; k < 12; k++ {
			fl.plan = append(fl.plan, r.Intn(3) == 0)
		}
		fl.plan[r.Intn(3)] = true
		var served atomic.Int32
		srv := link.NewServer(fl, codec.FixLen(codec.Byte(), 2, leOrder, 1024, 1024), 0, link.HandlerFunc(func(s *link.Session) {
			served.Add(1)
			for {
				v, err := s.Receive()
				if err != nil || s.Send(v) != nil {
					return
				}
			}
		}))
		done := make(chan error, 1)
		go func() { done <- srv.Serve() }()
		clients := 2 + r.Intn(3)
		for k := 0; k < clients; k++ {
			nc, err := net.DialTimeout("tcp", ln.Addr().String(), 10*time.Second)
			if err != nil {
				c.Violate("server-gone", fl.plan, "%s: client %d cannot connect after a temporary accept failure: %v", label, k, err)
				return
			}
			nc.SetDeadline(time.Now().Add(mon.Hang))
			nc.Write([]byte{2, 0, 'h', 'i'})
			b := make([]byte, 4)
			if _, err := io.ReadFull(nc, b); err != nil || string(b[2:]) != "hi" {
				c.Violate("server-gone", fl.plan, "%s: client %d is not served after a temporary accept failure: %x %v", label, k, b, err)
				nc.Close()
				return
			}
			nc.Close()
		}
		select {
		case err := <-done:
			c.Violate("server-gone", fl.plan, "%s: Serve returned %v without Stop", label, err)
		default:
		}
		if !mon.Within(mon.Hang, srv.Stop) {
			c.Violate("stop-hangs", nil, "%s: Stop does not return\n%s", label, mon.LibStacks())
			return
		}
		select {
		case <-done:
		case <-time.After(mon.Hang):
			c.Violate("serve-does-not-end", nil, "%s: Serve still runs after Stop\n%s", label, mon.LibStacks())
		}
		c.Case(fmt.Sprint(label, fl.plan, clients), true)
		c.Count("temporary_accept_failures", 1)
	})
}

// p07Stalled: sessions that have closed but whose close callbacks are still held up by an earlier one.
func p07Stalled(c *mon.Ctx) {
	for i := 0; i < c.N(200, 4000); i++ {
		label := fmt.Sprintf("stalled-%d", i)
		if c.Skip(label) {
			continue
		}
		end := c.Begin(label)
		r := c.Rng(label)
		ch := link.NewChannel()
		hold := make(chan struct{})
		var dead, live []*p07s
		hist := ""
		for k := 0; k < 2+r.Intn(6); k++ {
			p := mkSess(r, k)
			if r.Intn(3) > 0 {
				p.s.AddCloseCallback("first", 0, func() { <-hold })
			}
			ch.Put(k, p.s)
			if r.Intn(2) == 0 {
				p.s.Close()
				dead = append(dead, p)
				hist += fmt.Sprintf(" closed%d", k)
			} else {
				live = append(live, p)
			}
		}
		switch op := r.Intn(4); op {
		case 0:
			hist += " channel-close"
			ch.Close()
			if ch.Len() != 0 {
				c.Violate("channel-close", hist, "%s:%s: %d sessions left in a closed channel", label, hist, ch.Len())
			}
		case 1:
			hist += " fetch-and-remove"
			ch.FetchAndRemove(func(*link.Session) {})
			if ch.Len() != 0 {
				c.Violate("fetch-and-remove", hist, "%s:%s: %d sessions left", label, hist, ch.Len())
			}
		case 2:
			hist += " remove-all"
			for k := 0; k < 9; k++ {
				was := ch.Get(k) != nil
				if got := ch.Remove(k); was != got && len(dead) == 0 {
					c.Violate("remove-result", hist, "%s: Remove(%d) returned %v", label, k, got)
				}
			}
			if ch.Len() != 0 {
				c.Violate("channel-state", hist, "%s:%s: %d sessions left after removing every key", label, hist, ch.Len())
			}
		case 3:
			hist += " replace-all"
			var repl []*p07s
			for k := 0; k < len(dead)+len(live); k++ {
				p := mkSess(r, 100+k)
				repl = append(repl, p)
				ch.Put(k, p.s)
			}
			close(hold)
			mon.Eventually(50*time.Millisecond, func() bool { return false }) // let the old callbacks run
			for k, p := range repl {
				if ch.Get(k) != p.s {
					c.Violate("channel-state", hist, "%s:%s: key %d lost its new session", label, hist, k)
				}
			}
			hold = nil
		}
		if hold != nil {
			close(hold)
		}
		for _, p := range live {
			p.s.Close()
		}
		c.Case(label+hist, len(dead) > 0)
		c.Count("stalled_callbacks", len(dead))
		end()
	}
}

// p07Single: SingleServe serves one connection under the server's management.
func p07Single(c *mon.Ctx) {
	n := c.N(24, 300)
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("single-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		refuse := r.Intn(4) == 0
		proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			if refuse {
				return nil, errors.New("no codec")
			}
			return codec.FixLen(codec.Byte(), 2, leOrder, 1024, 1024).NewCodec(rw)
		})
		got := make(chan *link.Session, 4)
		var srv *link.Server
		srv, err := link.Listen("tcp", "127.0.0.1:0", proto, r.Intn(2)*8, link.HandlerFunc(func(s *link.Session) {
			got <- s
			for {
				v, err := s.Receive()
				if err != nil || s.Send(v) != nil {
					return
				}
			}
		}))
		if err != nil {
			c.Inconclusive("%s: listen: %v", label, err)
			return
		}
		served := make(chan error, 1)
		go func() { served <- srv.SingleServe() }()
		early := r.Intn(5) == 0
		c.Case(fmt.Sprint(label, refuse, early), !early)
		if early { // stopped before anyone connects
			srv.Stop()
		} else {
			nc, err := net.DialTimeout("tcp", srv.Listener().Addr().String(), 10*time.Second)
			if err != nil {
				c.Inconclusive("%s: dial: %v", label, err)
				srv.Stop()
				return
			}
			defer nc.Close()
			nc.SetDeadline(time.Now().Add(mon.Hang))
			nc.Write([]byte{2, 0, 'h', 'i'})
			b := make([]byte, 4)
			_, err = io.ReadFull(nc, b)
			if refuse {
				if ne, ok := err.(net.Error); err == nil || ok && ne.Timeout() {
					c.Violate("accepted-not-served", nil, "%s: a connection without a codec is neither served nor closed (%v)", label, err)
				}
				srv.Stop()
			} else {
				if err != nil || string(b[2:]) != "hi" {
					c.Violate("client-not-served", nil, "%s: SingleServe answered %x, %v", label, b, err)
					srv.Stop()
					return
				}
				s := <-got
				if srv.GetSession(s.ID()) != s {
					c.Violate("live-session-lost", nil, "%s: the server does not find the session SingleServe created", label)
				}
				if r.Intn(2) == 0 {
					nc.Close()
				} else if !mon.Within(mon.Hang, srv.Stop) {
					c.Violate("stop-hangs", nil, "%s: Stop does not return\n%s", label, mon.LibStacks())
					return
				}
				if !mon.Eventually(mon.Hang, func() bool { return s.IsClosed() && srv.GetSession(s.ID()) == nil }) {
					c.Violate("stop-leaves-session", nil, "%s: the session of SingleServe is open or held after its end", label)
				}
				srv.Stop()
			}
		}
		select {
		case err := <-served:
			if (early || refuse) && err == nil {
				c.Violate("serve-result", nil, "%s: SingleServe reports success without a session", label)
			}
		case <-time.After(mon.Hang):
			c.Violate("serve-does-not-end", nil, "%s: SingleServe still runs\n%s", label, mon.LibStacks())
		}
		c.Count("single_serves", 1)
	})
}

type p07s struct {
	id int
	s  *link.Session
	cd *fakeCodec
}

func mkSess(r *rand.Rand, id int) *p07s {
	cd := newFakeCodec()
	s, _ := newSess(r, cd)
	if r.Intn(2) == 0 {
		s.State = id
	}
	return &p07s{id, s, cd}
}

func p07Channel(c *mon.Ctx) {
	n := c.N(1500, 50000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("chan-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		chans := []*link.Channel{link.NewChannel(), link.NewChannel()}
		models := []map[int]*p07s{{}, {}}
		ss := []*p07s{}
		for k := 0; k < 3+r.Intn(4); k++ {
			ss = append(ss, mkSess(r, k))
		}
		nKeys := 1 + r.Intn(4)
		hist := ""
		ended := 0
		userCb := map[int]*atomic.Int32{}
		check := func(x int) bool {
			ch, mo := chans[x], models[x]
			state := func() string {
				if ch.Len() != len(mo) {
					return fmt.Sprintf("Len %d, model %d", ch.Len(), len(mo))
				}
				for k := 0; k < nKeys; k++ {
					var w *link.Session
					if p := mo[k]; p != nil {
						w = p.s
					}
					if ch.Get(k) != w {
						return fmt.Sprintf("key %d holds another session than the model (model %v)", k, mo[k] != nil)
					}
				}
				seen := 0
				bad := ""
				ch.Fetch(func(s *link.Session) {
					seen++
					ok := false
					for _, p := range mo {
						ok = ok || p.s == s
					}
					if !ok {
						bad = "Fetch shows a session the channel does not hold"
					}
				})
				if bad == "" && seen != len(mo) {
					bad = fmt.Sprintf("Fetch shows %d sessions of %d", seen, len(mo))
				}
				return bad
			}
			msg := ""
			if !mon.Eventually(mon.Hang, func() bool { msg = state(); return msg == "" }) {
				c.Violate("channel-state", hist, "%s: after %s channel %d: %s\n%s", label, hist, x, msg, mon.LibStacks())
				return false
			}
			return true
		}
		for o := 0; o < 4+r.Intn(20); o++ {
			x := r.Intn(2)
			k := r.Intn(nKeys)
			p := ss[r.Intn(len(ss))]
			var done bool
			switch op := r.Intn(12); {
			case op < 6:
				hist += fmt.Sprintf(" put%d(%d,s%d)", x, k, p.id)
				done = mon.Within(mon.Hang, func() { chans[x].Put(k, p.s) })
				if p.s.IsClosed() {
					delete(models[x], k)
				} else {
					models[x][k] = p
				}
			case op < 8:
				hist += fmt.Sprintf(" rm%d(%d)", x, k)
				var got bool
				done = mon.Within(mon.Hang, func() { got = chans[x].Remove(k) })
				if done && got != (models[x][k] != nil) {
					c.Violate("remove-result", hist, "%s: %s returned %v", label, hist, got)
				}
				delete(models[x], k)
			case op < 10:
				hist += fmt.Sprintf(" close(s%d)", p.id)
				if userCb[p.id] == nil && !p.s.IsClosed() {
					n := &atomic.Int32{}
					userCb[p.id] = n
					p.s.AddCloseCallback("user", p.id, func() { n.Add(1) })
				}
				done = mon.Within(mon.Hang, func() { p.s.Close() })
				for y := range models {
					for kk, q := range models[y] {
						if q == p {
							delete(models[y], kk)
							ended++
						}
					}
				}
			case op < 11:
				hist += fmt.Sprintf(" fetchrm%d", x)
				got := map[*link.Session]int{}
				done = mon.Within(mon.Hang, func() { chans[x].FetchAndRemove(func(s *link.Session) { got[s]++ }) })
				want := map[*link.Session]int{}
				for _, q := range models[x] {
					want[q.s]++
				}
				if done && fmt.Sprint(len(got)) != fmt.Sprint(len(want)) {
					c.Violate("fetch-and-remove", hist, "%s: %s: callback saw %d sessions of %d", label, hist, len(got), len(want))
				}
				for s, w := range want {
					if done && got[s] != w {
						c.Violate("fetch-and-remove", hist, "%s: %s: a session was shown %d times, held under %d keys", label, hist, got[s], w)
					}
				}
				models[x] = map[int]*p07s{}
			default:
				hist += fmt.Sprintf(" closech%d", x)
				done = mon.Within(mon.Hang, func() { chans[x].Close() })
				models[x] = map[int]*p07s{}
			}
			if !done {
				c.Violate("deadlock", hist, "%s: %s does not return\n%s", label, hist, mon.LibStacks())
				return
			}
			if !check(0) || !check(1) {
				return
			}
		}
		// the application's own callbacks survive all channel bookkeeping
		for id, n := range userCb {
			if !mon.Eventually(mon.Hang, func() bool { return n.Load() >= 1 }) || n.Load() != 1 {
				c.Violate("user-callback", hist, "%s: %s: the application's close callback of s%d ran %d times", label, hist, id, n.Load())
			}
		}
		c.Case(hist, ended > 0)
		if i < 2 {
			c.Sample(hist)
		}
	})
}

// Each key has one owner goroutine that puts, removes and replaces; sessions die at random; other
// goroutines read. At quiescence each key holds exactly its owner's last live session.
func p07ChannelConc(c *mon.Ctx) {
	n := c.N(200, 6000)
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("chanconc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		ch := link.NewChannel()
		nKeys := 2 + r.Intn(4)
		last := make([]*p07s, nKeys)
		var wg sync.WaitGroup
		ended := atomic.Int32{}
		stop := make(chan struct{})
		var rd sync.WaitGroup
		for k := 0; k < 2; k++ {
			rd.Add(1)
			go func() {
				defer rd.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					ch.Len()
					ch.Get(0)
					ch.Fetch(func(s *link.Session) { s.ID() })
					runtime.Gosched()
				}
			}()
		}
		for k := 0; k < nKeys; k++ {
			k := k
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for o := 0; o < 25; o++ {
					p := mkSess(rr, o)
					mode := rr.Intn(5)
					if mode == 0 {
						// a callback that uses the channel, holding up the close
						p.s.AddCloseCallback("user", 1, func() { ch.Len(); ch.Get(k); runtime.Gosched() })
					}
					switch rr.Intn(4) {
					case 0: // the session dies while it is being put
						var w2 sync.WaitGroup
						w2.Add(1)
						go func() { defer w2.Done(); p.s.Close(); ended.Add(1) }()
						ch.Put(k, p.s)
						w2.Wait()
						last[k] = nil
					case 1:
						ch.Put(k, p.s)
						p.s.Close()
						ended.Add(1)
						last[k] = nil
					case 2:
						ch.Put(k, p.s)
						last[k] = p
						if rr.Intn(2) == 0 {
							ch.Remove(k)
							last[k] = nil
							if rr.Intn(2) == 0 {
								p.s.Close()
							}
						}
					default:
						// replaced at once by a successor while it dies
						ch.Put(k, p.s)
						q := mkSess(rr, 1000+o)
						var w2 sync.WaitGroup
						w2.Add(1)
						go func() { defer w2.Done(); p.s.Close(); ended.Add(1) }()
						ch.Put(k, q.s)
						w2.Wait()
						last[k] = q
					}
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			close(stop)
			c.Violate("deadlock", nil, "%s: concurrent channel use does not finish\n%s", label, mon.LibStacks())
			return
		}
		close(stop)
		rd.Wait()
		msg := ""
		if !mon.Eventually(mon.Hang, func() bool {
			want := 0
			for k := range last {
				var w *link.Session
				if last[k] != nil {
					w = last[k].s
					want++
				}
				if g := ch.Get(k); g != w {
					msg = fmt.Sprintf("key %d: held=%v (closed %v), expected=%v", k, g != nil, g != nil && g.IsClosed(), w != nil)
					return false
				}
			}
			if ch.Len() != want {
				msg = fmt.Sprintf("Len %d, expected %d", ch.Len(), want)
				return false
			}
			return true
		}) {
			c.Violate("channel-state", nil, "%s: at quiescence: %s", label, msg)
			return
		}
		ch.Close()
		if ch.Len() != 0 {
			c.Violate("channel-close", nil, "%s: Len %d after Close", label, ch.Len())
		}
		c.Case(label, ended.Load() > 0)
		c.Count("sessions_ended_in_channels", int(ended.Load()))
	})
}

func p07Manager(c *mon.Ctx) {
	n := c.N(300, 8000)
	mon.Parallel(8, n, func(i int) {
		label := fmt.Sprintf("mgr-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		m := link.NewManager()
		type ent struct {
			s  *link.Session
			cd *fakeCodec
			up bool
		}
		var es []*ent
		hist := ""
		disposed := false
		for o := 0; o < 6+r.Intn(60); o++ {
			switch op := r.Intn(10); {
			case op < 5:
				cd := newFakeCodec()
				s := m.NewSession(cd, r.Intn(3))
				e := &ent{s, cd, !disposed}
				es = append(es, e)
				hist += "n"
			case op < 8 && len(es) > 0:
				e := es[r.Intn(len(es))]
				if r.Intn(2) == 0 {
					e.s.Close()
				} else {
					e.cd.recvErr <- errors.New("broken")
					e.s.Receive()
				}
				e.up = false
				hist += "c"
			case op == 9 && r.Intn(6) == 0:
				if !mon.Within(mon.Hang, m.Dispose) {
					c.Violate("dispose-hangs", hist, "%s: Dispose does not return\n%s", label, mon.LibStacks())
					return
				}
				disposed = true
				for _, e := range es {
					e.up = false
				}
				hist += "D"
			default:
				hist += "."
			}
			for x, e := range es {
				if e.up {
					if m.GetSession(e.s.ID()) != e.s || e.s.IsClosed() {
						c.Violate("live-session-lost", hist, "%s: %s: live session %d: found=%v closed=%v", label, hist, x, m.GetSession(e.s.ID()) == e.s, e.s.IsClosed())
						return
					}
				} else if !e.s.IsClosed() || !mon.Eventually(mon.Hang, func() bool { return m.GetSession(e.s.ID()) == nil }) {
					c.Violate("dead-session-held", hist, "%s: %s: ended session %d: closed=%v, still found by the manager", label, hist, x, e.s.IsClosed())
					return
				}
				if disposed && e.cd.closed.Load() != 1 {
					c.Violate("codec-closes", hist, "%s: codec closed %d times", label, e.cd.closed.Load())
					return
				}
			}
			if m.GetSession(0) != nil {
				c.Violate("invented-session", hist, "%s: GetSession(0)", label)
			}
		}
		ids := map[uint64]bool{}
		for _, e := range es {
			if ids[e.s.ID()] {
				c.Violate("duplicate-id", hist, "%s: two sessions share ID %d", label, e.s.ID())
			}
			ids[e.s.ID()] = true
			e.s.Close()
		}
		c.Case(hist, len(es) > 1)
	})
}

func p07ManagerConc(c *mon.Ctx) {
	n := c.N(150, 5000)
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("mgrconc-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		m := link.NewManager()
		var mu sync.Mutex
		var made []*link.Session
		var wg sync.WaitGroup
		workers := 2 + r.Intn(5)
		disposeAt := int32(r.Intn(workers * 20))
		var count atomic.Int32
		for w := 0; w < workers; w++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					s := m.NewSession(newFakeCodec(), rr.Intn(2))
					count.Add(1)
					mu.Lock()
					made = append(made, s)
					mu.Unlock()
					switch rr.Intn(4) {
					case 0:
						s.Close()
						if m.GetSession(s.ID()) != nil && !mon.Eventually(mon.Hang, func() bool { return m.GetSession(s.ID()) == nil }) {
							c.Violate("dead-session-held", nil, "%s: closed session still found", label)
						}
					case 1:
						go s.Close()
					case 2:
						s.AddCloseCallback(1, 1, func() { m.GetSession(s.ID()) })
					}
				}
			}()
		}
		disposers := r.Intn(3)
		for d := 0; d < disposers; d++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for count.Load() < disposeAt {
					runtime.Gosched()
				}
				m.Dispose()
				// everything created so far is closed once Dispose has returned
				mu.Lock()
				snap := append([]*link.Session(nil), made...)
				mu.Unlock()
				for _, s := range snap {
					if !s.IsClosed() {
						c.Violate("dispose-leaves-session", nil, "%s: session %d is open after Dispose returned", label, s.ID())
						return
					}
				}
			}()
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("deadlock", nil, "%s: sessions/Dispose do not finish\n%s", label, mon.LibStacks())
			return
		}
		if !mon.Within(mon.Hang, m.Dispose) {
			c.Violate("dispose-hangs", nil, "%s: final Dispose hangs\n%s", label, mon.LibStacks())
			return
		}
		for _, s := range made {
			if !s.IsClosed() {
				c.Violate("dispose-leaves-session", nil, "%s: session %d open after the final Dispose", label, s.ID())
				return
			}
		}
		if !mon.Eventually(mon.Hang, func() bool {
			for _, s := range made {
				if m.GetSession(s.ID()) != nil {
					return false
				}
			}
			return true
		}) {
			c.Violate("dead-session-held", nil, "%s: the disposed manager still finds a session", label)
		}
		c.Case(fmt.Sprint(label, workers, disposers), true)
		c.Count("managed_sessions", len(made))
	})
}

func p07Server(c *mon.Ctx) {
	n := c.N(60, 1500)
	mon.Parallel(4, n, func(i int) {
		label := fmt.Sprintf("server-%d", i)
		if c.Skip(label) || c.Broken() {
			return
		}
		defer c.Begin(label)()
		r := c.Rng(label)
		var mu sync.Mutex
		var sess []*link.Session
		refuse := r.Intn(4) == 0
		var refused atomic.Int32
		base := codec.FixLen(codec.Byte(), 2, leOrder, 1024, 1024)
		proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
			if refuse && refused.Add(1)%2 == 0 {
				return nil, errors.New("no codec")
			}
			return base.NewCodec(rw)
		})
		srv, err := link.Listen("tcp", "127.0.0.1:0", proto, r.Intn(2)*8, link.HandlerFunc(func(s *link.Session) {
			mu.Lock()
			sess = append(sess, s)
			mu.Unlock()
			for {
				v, err := s.Receive()
				if err != nil {
					return
				}
				if s.Send(v) != nil {
					return
				}
			}
		}))
		if err != nil {
			c.Inconclusive("%s: listen: %v", label, err)
			return
		}
		served := make(chan error, 1)
		go func() { served <- srv.Serve() }()
		addr := srv.Listener().Addr().String()
		clients := 2 + r.Intn(6)
		duringStop := r.Intn(2) == 0
		var wg sync.WaitGroup
		var conns []net.Conn
		echoed := atomic.Int32{}
		dial := func() {
			defer wg.Done()
			nc, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				return
			}
			mu.Lock()
			conns = append(conns, nc)
			mu.Unlock()
			nc.SetDeadline(time.Now().Add(mon.Hang))
			nc.Write([]byte{3, 0, 'a', 'b', 'c'})
			b := make([]byte, 5)
			if _, err := io.ReadFull(nc, b); err == nil && string(b[2:]) == "abc" {
				echoed.Add(1)
			} else if err == nil {
				c.Violate("echo", nil, "%s: got %x", label, b)
			} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
				c.Violate("accepted-not-served", nil, "%s: a connected client got neither service nor a close\n%s", label, mon.LibStacks())
			}
		}
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go dial()
		}
		if !duringStop {
			wg.Wait()
			if !refuse && int(echoed.Load()) != clients {
				c.Violate("client-not-served", nil, "%s: %d of %d clients were served", label, echoed.Load(), clients)
			}
			mu.Lock()
			for _, s := range sess {
				if !s.IsClosed() && srv.GetSession(s.ID()) != s {
					c.Violate("live-session-lost", nil, "%s: the server does not find its live session %d", label, s.ID())
				}
			}
			if len(conns) > 0 && len(sess) > 0 && !refuse {
				// one client leaves: its session must go
				conns[0].Close()
			}
			mu.Unlock()
			if !refuse {
				if !mon.Eventually(mon.Hang, func() bool {
					mu.Lock()
					defer mu.Unlock()
					left := 0
					for _, s := range sess {
						if srv.GetSession(s.ID()) != nil {
							left++
						}
					}
					return left == clients-1
				}) {
					c.Violate("dead-session-held", nil, "%s: the session of a departed client is still held", label)
				}
			}
		}
		if !mon.Within(mon.Hang, srv.Stop) {
			c.Violate("stop-hangs", nil, "%s: Stop does not return\n%s", label, mon.LibStacks())
			return
		}
		select {
		case <-served:
		case <-time.After(mon.Hang):
			c.Violate("serve-does-not-end", nil, "%s: Serve still runs after Stop\n%s", label, mon.LibStacks())
			return
		}
		if !mon.Within(mon.Hang, wg.Wait) {
			c.Violate("client-left-hanging", nil, "%s: a client still waits after Stop\n%s", label, mon.LibStacks())
			return
		}
		if nc, err := net.DialTimeout("tcp", addr, 3*time.Second); err == nil {
			// the port may have been reused by another case; a served echo would be a violation
			nc.Close()
		}
		if !mon.Eventually(mon.Hang, func() bool {
			mu.Lock()
			defer mu.Unlock()
			for _, s := range sess {
				if !s.IsClosed() || srv.GetSession(s.ID()) != nil {
					return false
				}
			}
			return true
		}) {
			c.Violate("stop-leaves-session", nil, "%s: a session is open or held after Stop", label)
		}
		mu.Lock()
		for _, nc := range conns {
			nc.SetReadDeadline(time.Now().Add(mon.Hang))
			if _, err := nc.Read(make([]byte, 1)); err == nil {
				c.Violate("connection-survives-stop", nil, "%s: data on a connection after Stop", label)
			} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
				c.Violate("connection-survives-stop", nil, "%s: a client's connection is still open after Stop", label)
			}
			nc.Close()
		}
		mu.Unlock()
		c.Case(fmt.Sprint(label, clients, duringStop, refuse), true)
		c.Count("server_clients", clients)
	})
}
