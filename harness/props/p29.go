package props

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/younglifestyle/secs4go/gem"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P29", Race: true, Run: p29,
		Rule: "one case is one store, request, registration or handler change compared with the store model, or one host call answered by a raw equipment; distinct by label and number",
		Assume: []string{"the store keeps text: a binary body is refused; text that is not 7-bit ASCII is refused where it enters",
			"an upload or request handler's code outside 0..255 reaches the requester as some non-zero code",
			"with a request handler installed S7F5 is answered by it alone"}})
}

// ppHandler is an upload or request handler with a verdict, recording its calls.
type ppHandler struct {
	mu    sync.Mutex
	code  int
	body  string
	calls []string
}

func (h *ppHandler) upload(id interface{}, body string) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, fmt.Sprintf("%T:%v:%s", id, id, body))
	return h.code
}

func (h *ppHandler) request(id interface{}) (string, int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, fmt.Sprintf("%T:%v", id, id))
	return h.body, h.code
}

func (h *ppHandler) take() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	c := h.calls
	h.calls = nil
	return c
}

type ppStore struct {
	s    *gemRig
	r    *rand.Rand
	pool []gid
	m    map[gid]string
	up   *ppHandler
	req  *ppHandler
}

func genProgram(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(gemText(r, 40)+"\n", r.Intn(3000))
	case 2:
		var b strings.Builder
		for i := 0; i < 128; i++ {
			b.WriteByte(byte(i))
		}
		return b.String()
	case 3:
		return strings.Repeat("x", []int{255, 256, 65535, 65536}[r.Intn(4)])
	}
	return gemText(r, 200)
}

// newPPStore is a store for a few or for hundreds of programs.
func newPPStore(s *gemRig) *ppStore {
	g := &ppStore{s: s, r: s.r, m: map[gid]string{}}
	if s.r.Intn(6) > 0 {
		g.pool = genIDs(s.r, 1+s.r.Intn(8))
		return g
	}
	g.pool = genIDs(s.r, 260+s.r.Intn(300))
	for _, id := range g.pool {
		if s.r.Intn(6) > 0 && !s.isBad() {
			g.put(id, gemText(s.r, 80), id.goVal(s.r), "")
		}
	}
	return g
}

func (g *ppStore) pick() gid {
	if g.r.Intn(10) == 0 {
		return genID(g.r)
	}
	return g.pool[g.r.Intn(len(g.pool))]
}

func genCode(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0, 1, 2:
		return 0
	case 3:
		return []int{-1, -256, 256, 512, 1 << 40}[r.Intn(5)]
	}
	return r.Intn(256)
}

// codeOK: does the code on the wire stand for what the handler said?
func codeOK(handler, wire int) bool {
	if handler < 0 || handler > 255 {
		return wire > 0
	}
	return wire == handler
}

func (g *ppStore) register() {
	id, body := g.pick(), genProgram(g.r)
	bad := ""
	var gv any = id.goVal(g.r)
	switch g.r.Intn(12) {
	case 0:
		gv, bad = notGoID(g.r), "identifier"
	case 1:
		body, bad = body+[]string{"é", "\x80", "\xff"}[g.r.Intn(3)], "text"
	}
	g.put(id, body, gv, bad)
}

func (g *ppStore) put(id gid, body string, gv any, bad string) {
	err := g.s.G.RegisterProcessProgram(gv, body)
	g.s.note("register %#v (%d bytes, bad %s): %v", gv, len(body), bad, err)
	if (bad != "") != (err != nil) {
		g.s.fail("register", "RegisterProcessProgram(%#v, %s) (bad %s) gives %v", gv, cutStr(fmt.Sprintf("%q", body), 100), bad, err)
		return
	}
	if err == nil {
		g.m[id] = body
	}
}

// store uploads by S7F3 or by a host call.
func (g *ppStore) store(h *gem.GemHandler) {
	r, s := g.r, g.s
	id, body := g.pick(), genProgram(r)
	malformed := false
	code := -1
	if h != nil {
		switch r.Intn(15) {
		case 0:
			if _, err := h.UploadProcessProgram(notGoID(r), body); err == nil {
				s.fail("host-bad-id", "UploadProcessProgram of no identifier gives no error")
			}
			return
		case 1:
			var err error
			pv, _ := mon.Recover(func() { _, err = h.UploadProcessProgram(id.goVal(r), body+"\xe9") })
			if pv != nil || err == nil {
				s.fail("host-bad-text", "UploadProcessProgram of text that is not ASCII gives %v, panic %v", err, pv)
			}
			return
		}
		var err error
		code, err = h.UploadProcessProgram(id.goVal(r), body)
		s.note("upload %v (%d bytes): %d, %v", id, len(body), code, err)
		if err != nil {
			s.fail("host-call", "UploadProcessProgram: %v", err)
			return
		}
	} else {
		b := ref.Lst(id.wire(r), ref.Asc(body))
		if malformed = r.Intn(6) == 0; malformed {
			b = []ref.Item{{}, ref.Lst(), ref.Lst(id.wire(r)), ref.Lst(notID(r), ref.Asc(body)), ref.Lst(id.wire(r), ref.Bin([]byte(body)...)), ref.Lst(id.wire(r), ref.Uint(ref.U1, 65)),
				ref.Lst(id.wire(r), ref.Lst(ref.Asc(body))), ref.Asc(body)}[r.Intn(8)]
		}
		s.note("S7F3 %s", cutStr(b.String(), 200))
		it, ok := s.ask(7, 3, b)
		if !ok {
			return
		}
		code = ack1(it)
	}
	want := 0
	if malformed {
		if code <= 0 {
			s.fail("s7f4", "a malformed S7F3 is answered with %d", code)
			return
		}
		if g.up != nil && len(g.up.take()) > 0 {
			s.fail("upload-handler", "the upload handler was called for a malformed S7F3")
		}
		s.c.Count("malformed uploads refused", 1)
		return
	}
	if g.up != nil {
		want = g.up.code
		if c := g.up.take(); len(c) != 1 || c[0] != fmt.Sprintf("%T:%v:%s", id.raw(), id.raw(), body) {
			s.fail("upload-handler", "upload of %v (%d bytes): %d calls of the handler: %s", id, len(body), len(c), cutStr(fmt.Sprintf("%q", c), 300))
			return
		}
	}
	if !codeOK(want, code) {
		s.fail("s7f4", "an upload the handler answers with %d (handler installed: %v) is acknowledged %d", want, g.up != nil, code)
		return
	}
	if code == 0 {
		g.m[id] = body
		s.c.Count("uploads accepted", 1)
	} else {
		s.c.Count("uploads refused", 1)
	}
}

// fetch requests by S7F5 or a host call and compares.
func (g *ppStore) fetch(h *gem.GemHandler) {
	r, s := g.r, g.s
	id := g.pick()
	var body string
	code := -1
	if h != nil {
		var err error
		body, code, err = h.RequestProcessProgram(id.goVal(r))
		if err != nil {
			s.fail("host-call", "RequestProcessProgram(%v): %v", id, err)
			return
		}
	} else {
		b := id.wire(r)
		if r.Intn(5) == 0 {
			b = ref.Lst(b)
		}
		malformed := r.Intn(8) == 0
		if malformed {
			b = notID(r)
			if b.K == ref.L && len(b.List) > 0 {
				b = ref.Item{}
			}
		}
		it, ok := s.ask(7, 5, b)
		if !ok {
			return
		}
		if it.K != ref.L || len(it.List) != 3 || it.List[1].K != ref.A || ack1(it.List[2]) < 0 || !malformed && !isID(it.List[0], id) {
			s.fail("s7f6", "S7F5 %s is answered with %s", b, cutStr(it.String(), 300))
			return
		}
		body, code = it.List[1].Str(), ack1(it.List[2])
		if malformed {
			if code == 0 || body != "" || g.req != nil && len(g.req.take()) > 0 {
				s.fail("s7f6", "a malformed S7F5 %s is answered with %s", b, cutStr(it.String(), 300))
			}
			return
		}
	}
	s.c.Count("requests compared", 1)
	want, stored := g.m[id]
	if g.req != nil {
		want, stored = g.req.body, g.req.code == 0
		if c := g.req.take(); len(c) != 1 || c[0] != fmt.Sprintf("%T:%v", id.raw(), id.raw()) {
			s.fail("request-handler", "request of %v: calls of the handler: %q", id, c)
			return
		}
		for i := 0; i < len(want); i++ {
			if want[i] > 127 {
				stored = false // cannot be sent
			}
		}
		if stored || g.req.code != 0 {
			if !codeOK(g.req.code, code) {
				s.fail("s7f6-code", "the request handler's %d reaches the requester as %d", g.req.code, code)
				return
			}
		} else if code == 0 {
			s.fail("s7f6-code", "a program that cannot be sent is answered with code 0")
			return
		}
	}
	if stored && (code != 0 || body != want) {
		s.fail("body", "program %v, stored as %s, comes back as %s, code %d", id, cutStr(fmt.Sprintf("%q", want), 200), cutStr(fmt.Sprintf("%q", body), 200), code)
	} else if !stored && (code == 0 || body != "") {
		s.fail("body", "program %v, never stored, comes back as %s, code %d", id, cutStr(fmt.Sprintf("%q", body), 200), code)
	}
}

func (g *ppStore) list() {
	got := map[string]string{}
	l := g.s.G.ListProcessPrograms()
	for i := range l {
		got[fmt.Sprintf("%T:%v", l[i].ID(), l[i].ID())] = l[i].Body
	}
	want := map[string]string{}
	for id, b := range g.m {
		want[fmt.Sprintf("%T:%v", id.raw(), id.raw())] = b
	}
	if len(got) != len(l) || len(got) != len(want) {
		g.s.fail("list", "%d programs listed, %d stored", len(l), len(want))
		return
	}
	for k, b := range want {
		if x, ok := got[k]; !ok || x != b {
			g.s.fail("list", "program %s is stored as %s and listed as %s", k, cutStr(fmt.Sprintf("%q", b), 200), cutStr(fmt.Sprintf("%q", x), 200))
		}
	}
}

func (g *ppStore) step(h *gem.GemHandler) {
	r := g.r
	switch k := r.Intn(20); {
	case k < 3:
		g.register()
	case k < 8:
		g.store(h)
	case k < 9:
		g.up = nil
		if r.Intn(2) == 0 {
			g.up = &ppHandler{code: genCode(r)}
			g.s.G.SetProcessProgramUploadHandler(g.up.upload)
			g.s.note("upload handler says %d", g.up.code)
		} else {
			g.s.G.SetProcessProgramUploadHandler(nil)
			g.s.note("no upload handler")
		}
	case k < 10:
		g.req = nil
		if r.Intn(3) == 0 {
			g.req = &ppHandler{code: genCode(r), body: genProgram(r)}
			if r.Intn(5) == 0 {
				g.req.body += "\x80"
			}
			g.s.G.SetProcessProgramRequestHandler(g.req.request)
			g.s.note("request handler says %d", g.req.code)
		} else {
			g.s.G.SetProcessProgramRequestHandler(nil)
			g.s.note("no request handler")
		}
	case k < 12:
		g.list()
	default:
		g.fetch(h)
	}
}

func p29(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(40, 320), func(label string, i int) {
		s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := newPPStore(s)
		for k := 0; k < c.N(250, 800) && !s.isBad(); k++ {
			c.Case(fmt.Sprint(label, k), true)
			g.step(nil)
			if s.r.Intn(150) == 0 && !s.isBad() {
				s.p.Close()
				s.note("connection ended")
				if !s.link() {
					return
				}
			}
		}
		if i == 0 {
			c.Sample(map[string]any{"case": label, "last": s.hist[len(s.hist)-3:]})
		}
	})
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) {
		s := newGemPair(c, label, nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		g := newPPStore(s.gemRig)
		for k := 0; k < c.N(200, 600) && !s.isBad(); k++ {
			c.Case(fmt.Sprint(label, k), true)
			g.step(s.H)
		}
	})
	jobs = addJobs(jobs, "host", c.N(8, 60), func(label string, i int) { p29Host(c, label, i) })
	gemJobs(c, 16, jobs)
}

// p29Host: a raw equipment answers a library host.
func p29Host(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply, asked atomic.Pointer[ref.Item]
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 7 && m.W() {
			it, _ := m.Item()
			asked.Store(&it)
			p.Send(ref.DataMsg(m.Session, 7, m.Function()+1, false, m.Sys, *reply.Load()))
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(150, 600) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		id, body, code := genID(r), genProgram(r), r.Intn(256)
		wrong := r.Intn(6) == 0
		if r.Intn(2) == 0 {
			rep := ref.Bin(byte(code))
			if wrong {
				rep = []ref.Item{{}, ref.Lst(), ref.Asc("a"), {K: ref.B}}[r.Intn(4)]
			}
			reply.Store(&rep)
			got, err := s.G.UploadProcessProgram(id.goVal(r), body)
			s.note("upload %v answered %s", id, rep)
			if wrong && err == nil || !wrong && (err != nil || got != code) {
				s.fail("host-upload", "an answer %s gives %d, %v", rep, got, err)
				return
			}
			if it := asked.Load(); it.K != ref.L || len(it.List) != 2 || !isID(it.List[0], id) || it.List[1].K != ref.A || it.List[1].Str() != body {
				s.fail("host-upload", "upload of %v %s is sent as %s", id, cutStr(fmt.Sprintf("%q", body), 200), cutStr(it.String(), 200))
				return
			}
			continue
		}
		rep := ref.Lst(id.wire(r), ref.Asc(body), ref.Bin(byte(code)))
		want := body
		switch r.Intn(4) {
		case 0:
			rep.List, code = rep.List[:2], 0
		case 1:
			b := make([]byte, r.Intn(300))
			r.Read(b)
			want = string(b)
			rep.List[1] = ref.Bin(b...)
		}
		if wrong {
			rep = []ref.Item{{}, ref.Lst(), ref.Lst(id.wire(r)), ref.Asc(body), ref.Lst(id.wire(r), ref.Uint(ref.U1, 5)), ref.Lst(id.wire(r), ref.Asc(body), ref.Asc("x"))}[r.Intn(6)]
		}
		reply.Store(&rep)
		got, gotCode, err := s.G.RequestProcessProgram(id.goVal(r))
		s.note("request %v answered %s", id, cutStr(rep.String(), 200))
		if wrong && err == nil || !wrong && (err != nil || gotCode != code || got != want) {
			s.fail("host-request", "an answer %s gives %s, %d, %v", cutStr(rep.String(), 200), cutStr(fmt.Sprintf("%q", got), 200), gotCode, err)
			return
		}
		it := *asked.Load()
		if it.K == ref.L && len(it.List) == 1 {
			it = it.List[0]
		}
		if !isID(it, id) {
			s.fail("host-request", "request of %v is sent as %s", id, it)
		}
		c.Count("programs read by a host from a raw equipment", 1)
	}
}
