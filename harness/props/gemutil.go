package props

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

// gemRig is a library GEM handler (one of the GEM lifeKinds) with a raw peer on the other side.
type gemRig struct {
	c     *mon.Ctx
	label string
	r     *rand.Rand
	e     *lifeEp
	G     *gem.GemHandler
	p     *peer.Peer
	mu    sync.Mutex
	hist  []string
	bad   bool
}

func (s *gemRig) note(f string, a ...any) {
	s.mu.Lock()
	s.hist = append(s.hist, cutStr(fmt.Sprintf(f, a...), 300))
	s.mu.Unlock()
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s... (%d bytes)", s[:n], len(s))
	}
	return s
}

func (s *gemRig) fail(key, f string, a ...any) {
	s.mu.Lock()
	s.bad = true
	h := append([]string(nil), s.hist...)
	s.mu.Unlock()
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	s.c.Violate(key, map[string]any{"label": s.label, "history": h}, "%s: %s\nafter:\n%s", s.label, fmt.Sprintf(f, a...), strings.Join(h, "\n"))
}

func (s *gemRig) isBad() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.bad
}

// newGemRig makes the handler; nil (reported as inconclusive) when that fails.
func newGemRig(c *mon.Ctx, label, kind string, cfg func(*hsms.SecsTimeout), opts ...func(*gem.Options)) *gemRig {
	e, err := newLife(kind, cfg, opts...)
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	e.setHook(gemPeer)
	return &gemRig{c: c, label: label, r: c.Rng(label), e: e, G: e.g}
}

// comm enables the handler, connects, selects and establishes communication from the peer's side.
func (s *gemRig) comm() bool {
	s.G.Enable()
	return s.link()
}

func (s *gemRig) link() bool {
	for try := 0; try < 5; try++ {
		p, err := s.e.up(mon.Hang)
		if err != nil {
			s.c.Inconclusive("%s: %v", s.label, err)
			return false
		}
		s.p = p
		m, err := p.Request(mon.Hang, 1, 13, ref.Lst())
		if err == nil && m.Function() == 14 {
			if s.G.WaitForCommunicating(mon.Hang) {
				return true
			}
		}
		if !p.Closed() {
			s.c.Inconclusive("%s: communication not established: %v\n%s", s.label, err, strings.Join(p.Log(10), "\n"))
			return false
		}
	}
	return false
}

func (s *gemRig) close() { s.e.close0(s.G) }

// close0 disables the GEM handler, then the rest.
func (e *lifeEp) close0(g *gem.GemHandler) {
	mon.Within(mon.Hang, g.Disable)
	e.close()
}

// ask sends a primary and returns the item of the secondary it expects.
func (s *gemRig) ask(stream, function int, body ref.Item) (ref.Item, bool) {
	m, err := s.p.Request(mon.Hang, stream, function, body)
	if err != nil {
		s.fail("no-reply", "S%dF%d %s: %v", stream, function, cutStr(body.String(), 300), err)
		return ref.Item{}, false
	}
	if m.Stream() != stream || m.Function() != function+1 || m.W() || m.Session != s.p.Session {
		s.fail("wrong-reply", "S%dF%d %s is answered by %s", stream, function, cutStr(body.String(), 300), m.String())
		return ref.Item{}, false
	}
	it, err := m.Item()
	if err != nil {
		s.fail("undecodable-reply", "S%dF%d %s is answered by an undecodable S%dF%d: %v", stream, function, cutStr(body.String(), 300), m.Stream(), m.Function(), err)
		return ref.Item{}, false
	}
	return it, true
}

// ack1 is the single acknowledge byte of an item <B x> or <L <B x>>; -1 for anything else.
func ack1(it ref.Item) int {
	if it.K == ref.L && len(it.List) == 1 {
		it = it.List[0]
	}
	if it.K != ref.B || len(it.Words) != 1 {
		return -1
	}
	return int(it.Words[0])
}

// gemPair is a library host and a library equipment connected to each other.
type gemPair struct {
	*gemRig
	E, H   *gem.GemHandler
	EP, HP *hsms.HsmsProtocol
}

func newGemPair(c *mon.Ctx, label string, cfg func(*hsms.SecsTimeout), opts ...func(*gem.Options)) *gemPair {
	s := newGemRig(c, label, "equipment passive", cfg, opts...)
	if s == nil {
		return nil
	}
	hp := hsms.NewHsmsProtocol(s.e.Host, s.e.Port, true, int(s.e.Session), "host")
	t := hp.Timeouts()
	t.SetT3ReplyTimeout(120)
	t.SetT5ConnSeparateTimeout(0)
	t.SetT6ControlTransTimeout(60)
	t.SetLinktest(0)
	t.SetReconnectBackoffBase(1)
	t.SetReconnectBackoffMax(1)
	if cfg != nil {
		cfg(t)
	}
	h, err := gem.NewGemHandler(gem.Options{Protocol: hp, DeviceType: gem.DeviceHost, DeviceID: s.e.Session})
	if err != nil {
		c.Inconclusive("%s: %v", label, err)
		return nil
	}
	return &gemPair{gemRig: s, E: s.G, H: h, EP: s.e.P, HP: hp}
}

func (s *gemPair) comm() bool {
	s.E.Enable()
	s.H.Enable()
	if !s.E.WaitForCommunicating(mon.Hang) || !s.H.WaitForCommunicating(mon.Hang) {
		s.c.Inconclusive("%s: communication not established: equipment %v, host %v", s.label, s.E.State(), s.H.State())
		return false
	}
	return true
}

func (s *gemPair) close() {
	mon.Within(mon.Hang, s.H.Disable)
	s.gemRig.close()
}

// gid is a GEM identifier: a number or a text.
type gid struct {
	str   string
	num   uint64
	isStr bool
}

func (g gid) String() string {
	if g.isStr {
		return fmt.Sprintf("%q", g.str)
	}
	return fmt.Sprint(g.num)
}

// raw is the form the library reports identifiers in.
func (g gid) raw() any {
	if g.isStr {
		return g.str
	}
	return g.num
}

// goVal is the identifier as some Go value of a type that holds it.
func (g gid) goVal(r *rand.Rand) any {
	if g.isStr {
		return g.str
	}
	v := g.num
	var c []any
	if v <= math.MaxUint8 {
		c = append(c, uint8(v))
	}
	if v <= math.MaxInt8 {
		c = append(c, int8(v))
	}
	if v <= math.MaxUint16 {
		c = append(c, uint16(v))
	}
	if v <= math.MaxInt16 {
		c = append(c, int16(v))
	}
	if v <= math.MaxUint32 {
		c = append(c, uint32(v))
	}
	if v <= math.MaxInt32 {
		c = append(c, int32(v))
	}
	if v <= math.MaxInt64 {
		c = append(c, int64(v), int(v))
	}
	c = append(c, v, uint(v))
	return c[r.Intn(len(c))]
}

// wire is the identifier in some item format that holds it.
func (g gid) wire(r *rand.Rand) ref.Item {
	if g.isStr {
		return ref.Asc(g.str)
	}
	var c []ref.Item
	for _, k := range []ref.Kind{ref.U1, ref.U2, ref.U4, ref.U8} {
		if w := uint(ref.Width[k]) * 8; w == 64 || g.num < 1<<w {
			c = append(c, ref.Uint(k, g.num))
		}
	}
	for _, k := range []ref.Kind{ref.I1, ref.I2, ref.I4, ref.I8} {
		if w := uint(ref.Width[k])*8 - 1; g.num < 1<<w {
			c = append(c, ref.Int(k, int64(g.num)))
		}
	}
	return c[r.Intn(len(c))]
}

// idOf reads an identifier item.
func idOf(it ref.Item) (gid, bool) {
	switch {
	case it.K == ref.A:
		return gid{isStr: true, str: it.Str()}, true
	case it.IsUint() && len(it.Words) == 1:
		return gid{num: it.Words[0]}, true
	case it.IsInt() && len(it.Words) == 1 && it.SignedAt(0) >= 0:
		return gid{num: uint64(it.SignedAt(0))}, true
	}
	return gid{}, false
}

func isID(it ref.Item, g gid) bool { got, ok := idOf(it); return ok && got == g }

var idNums = []uint64{0, 1, 2, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var idStrs = []string{"", "0", "1", "5", "N:5", "S:1", " 5", "05", "Temp", "temp", "a\"b", "x\\y", "line\nbreak", "tab\t", "\x00", "\x7f", "<A \"1\">", "[3]"}

func genID(r *rand.Rand) gid {
	switch r.Intn(6) {
	case 0, 1:
		return gid{num: idNums[r.Intn(len(idNums))]}
	case 2:
		return gid{isStr: true, str: idStrs[r.Intn(len(idStrs))]}
	case 3:
		return gid{num: r.Uint64() >> uint(r.Intn(64))}
	case 4:
		return gid{isStr: true, str: gemText(r, 40)}
	}
	return gid{num: uint64(r.Intn(12))}
}

// genIDs is n different identifiers.
func genIDs(r *rand.Rand, n int) []gid {
	seen := map[gid]bool{}
	var out []gid
	for len(out) < n {
		if g := genID(r); !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	return out
}

// notID is an item that is no identifier.
func notID(r *rand.Rand) ref.Item {
	switch r.Intn(9) {
	case 0:
		return ref.Lst()
	case 1:
		return ref.Bin(5)
	case 2:
		return ref.Bool(true)
	case 3:
		return ref.Float(ref.F4, 5)
	case 4:
		return ref.Int(ref.I1, -1)
	case 5:
		return ref.Int(ref.I8, math.MinInt64)
	case 6:
		return ref.Lst(ref.Uint(ref.U4, 1))
	case 7:
		return ref.Item{K: ref.U4}
	}
	return ref.Float(ref.F8, 1)
}

// notGoID is a Go value that is no identifier.
func notGoID(r *rand.Rand) any {
	all := []any{-1, int8(-1), int64(math.MinInt64), 1.0, float32(2), nil, true, []byte("5"), struct{}{}, []int{1}, new(int)}
	return all[r.Intn(len(all))]
}

func gemText(r *rand.Rand, max int) string {
	b := make([]byte, r.Intn(max+1))
	for i := range b {
		b[i] = byte(ref.GenWord(r, ref.A))
	}
	return string(b)
}

// sameItem compares an item of the library with the reference.
func sameItem(n ast.ItemNode, it ref.Item) bool {
	if n == nil {
		return false
	}
	got, err := ref.FromAST(n)
	return err == nil && ref.Equal(got, it.Normal())
}

func nodeStr(n any) string {
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Ptr && reflect.ValueOf(n).IsNil() {
		return "nil"
	}
	return cutStr(fmt.Sprint(n), 200)
}

// gemJobs runs labelled cases in parallel.
func gemJobs(c *mon.Ctx, workers int, jobs []gemJob) {
	mon.Parallel(workers, len(jobs), func(i int) {
		j := jobs[i]
		if c.Skip(j.label) || c.Violations() > 6 {
			return
		}
		defer c.Begin(j.label)()
		j.run(j.label, j.i)
	})
}

type gemJob struct {
	label string
	run   func(label string, i int)
	i     int
}

func addJobs(jobs []gemJob, name string, n int, f func(label string, i int)) []gemJob {
	for i := 0; i < n; i++ {
		jobs = append(jobs, gemJob{fmt.Sprintf("%s-%d", name, i), f, i})
	}
	return jobs
}
