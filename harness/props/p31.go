package props

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "time/tzdata"

	"github.com/younglifestyle/secs4go/gem"

	"verifharness/mon"
	"verifharness/peer"
	"verifharness/ref"
)

func init() {
	reg(&mon.Check{ID: "P31", Race: true, Run: p31,
		Rule: "one case is one time request, time set or parsed text compared with an independent reading of the text; distinct by text and handler state",
		Assume: []string{"a valid time text is YYYYMMDDhhmmss, alone or followed by two digits of centiseconds (which are documented as ignored), of the years 0001..9999; leap seconds are unspecified",
			"texts name a time of the clock's own zone: its date and time of day are compared, not its location",
			"the 12-digit form of E5 is not supported by the library"}})
}

type clock6 struct{ y, mo, d, h, mi, s int }

func (t clock6) text() string {
	return fmt.Sprintf("%04d%02d%02d%02d%02d%02d", t.y, t.mo, t.d, t.h, t.mi, t.s)
}

func monthDays(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// readClock is the reference reading of a time text; spec false: unspecified.
func readClock(s string) (t clock6, valid, spec bool) {
	if len(s) != 14 && len(s) != 16 {
		return t, false, true
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return t, false, true
		}
	}
	n := func(a, b int) (v int) {
		for _, c := range s[a:b] {
			v = v*10 + int(c-'0')
		}
		return
	}
	t = clock6{n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14)}
	if t.mo < 1 || t.mo > 12 || t.d < 1 || t.d > monthDays(t.y, t.mo) || t.h > 23 || t.mi > 59 || t.s > 60 {
		return t, false, true
	}
	return t, true, t.y > 0 && t.s < 60
}

func genClock(r *rand.Rand) clock6 {
	t := clock6{1 + r.Intn(9999), 1 + r.Intn(12), 1, r.Intn(24), r.Intn(60), r.Intn(60)}
	if r.Intn(2) == 0 {
		t.y = []int{1, 9, 99, 999, 1000, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2024, 2026, 2038, 2100, 9999}[r.Intn(18)]
	}
	t.d = 1 + r.Intn(monthDays(t.y, t.mo))
	switch r.Intn(9) {
	case 8: // an hour that daylight saving time skips, or repeats, somewhere
		t = []clock6{{2024, 3, 10, 2, r.Intn(60), 9}, {2024, 11, 3, 1, 30, r.Intn(60)}, {2024, 3, 31, 1 + r.Intn(2), r.Intn(60), 0}}[r.Intn(3)]
	case 0:
		t.d = monthDays(t.y, t.mo)
	case 1:
		t.h, t.mi, t.s = 0, 0, 0
	case 2:
		t.h, t.mi, t.s = 23, 59, 59
	case 3:
		t.mo = 2
		t.d = monthDays(t.y, 2)
	}
	return t
}

// genTimeText is a valid text or a slightly (or entirely) wrong one.
func genTimeText(r *rand.Rand) string {
	s := genClock(r).text()
	if r.Intn(2) == 0 {
		s += fmt.Sprintf("%02d", r.Intn(100))
	}
	set := func(a int, v string) { s = s[:a] + v + s[a+len(v):] }
	switch r.Intn(24) {
	case 0:
		s = s[:r.Intn(len(s))]
	case 1:
		s += gemText(r, 3)
	case 2:
		set(4, []string{"00", "13", "99", " 1", "1 "}[r.Intn(5)])
	case 3:
		set(6, []string{"00", "32", "31", "30", "29"}[r.Intn(5)])
	case 4:
		set(4, "02")
		set(6, "29")
	case 5:
		set(8, []string{"24", "99", " 1", "-1", "+1"}[r.Intn(5)])
	case 6:
		set(10, []string{"60", "99"}[r.Intn(2)])
	case 7:
		set(12, []string{"61", "99", "5.", ".5"}[r.Intn(4)])
	case 8:
		set(r.Intn(len(s)), string(rune(r.Intn(128))))
	case 9:
		s = " " + s
	case 10:
		s = s[:14] + []string{"xx", "0", "000", " ", ".5", "Z", "-1", "+0", "0x"}[r.Intn(9)]
	case 11:
		s = s[2:]
	case 12:
		s = gemText(r, 30)
	case 13:
		s = s[:8] + "T" + s[8:]
	case 14:
		set(0, []string{"-001", "+001", " 202", "0000"}[r.Intn(4)])
	}
	return s
}

type clockHandler struct {
	mu    sync.Mutex
	calls []time.Time
	ack   byte
	err   error
	also  func() // what the handler does besides
}

func (h *clockHandler) handle(t time.Time) (byte, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, t)
	if h.also != nil {
		h.also()
	}
	return h.ack, h.err
}

func (h *clockHandler) take() []time.Time {
	h.mu.Lock()
	defer h.mu.Unlock()
	c := h.calls
	h.calls = nil
	return c
}

func sameClock(t time.Time, w clock6, text string) bool {
	if t.Year() != w.y || int(t.Month()) != w.mo || t.Day() != w.d || t.Hour() != w.h || t.Minute() != w.mi || t.Second() != w.s {
		return false
	}
	if ns := t.Nanosecond(); ns != 0 {
		return len(text) == 16 && ns == (int(text[14]-'0')*10+int(text[15]-'0'))*10000000
	}
	return true
}

var zones = []*time.Location{time.UTC, time.Local, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600), time.FixedZone("odd", 5*3600+45*60+7)}

// clockRig checks one equipment's clock, over the wire (h nil) or by host calls.
type clockRig struct {
	s    *gemRig
	h    *gem.GemHandler
	sync *clockHandler
	now  atomic.Pointer[time.Time]
	prov bool
}

func (k *clockRig) provider() gem.TimeProvider {
	if !k.prov {
		return nil
	}
	return func() time.Time {
		if t := k.now.Load(); t != nil {
			return *t
		}
		return time.Unix(0, 0)
	}
}

func (k *clockRig) step() {
	r, s := k.s.r, k.s
	switch x := r.Intn(20); {
	case x < 1 || len(s.hist) == 0:
		if r.Intn(5) == 0 {
			k.sync = nil
			s.G.SetClockSyncHandler(nil)
			s.note("no handler")
			return
		}
		h := &clockHandler{}
		switch r.Intn(3) {
		case 0: // setting a clock commonly ends in a new source of time
			h.also = func() { s.G.SetTimeProvider(k.provider()) }
		case 1:
			h.also = func() { s.G.GetEquipmentTime(); s.G.SetClockSyncHandler(h.handle) }
		}
		k.sync = h
		s.G.SetClockSyncHandler(h.handle)
		s.note("handler")
	case x < 2:
		k.prov = r.Intn(3) > 0
		s.G.SetTimeProvider(k.provider())
		s.note("provider %v", k.prov)
	case x < 8:
		k.read()
	default:
		k.set()
	}
}

func (k *clockRig) read() {
	r, s := k.s.r, k.s
	t := genClock(r)
	z := zones[r.Intn(len(zones))]
	now := time.Date(t.y, time.Month(t.mo), t.d, t.h, t.mi, t.s, r.Intn(1e9), z)
	if got := now.Hour(); got != t.h { // a time the zone skips
		return
	}
	k.now.Store(&now)
	before := time.Now()
	var got string
	switch {
	case r.Intn(4) == 0:
		got = s.G.GetEquipmentTime()
		s.note("GetEquipmentTime %s", got)
	case k.h != nil:
		var err error
		got, err = k.h.RequestDateTime()
		s.note("RequestDateTime %s, %v", got, err)
		if err != nil {
			s.fail("host-call", "RequestDateTime: %v", err)
			return
		}
	default:
		b := ref.Lst()
		if r.Intn(4) == 0 {
			b = ref.Item{}
		}
		it, ok := s.ask(2, 17, b)
		if !ok {
			return
		}
		if it.K != ref.A {
			s.fail("s2f18", "S2F17 is answered with %s", it)
			return
		}
		got = it.Str()
		s.note("S2F17 %s", got)
	}
	after := time.Now()
	s.c.Count("times read", 1)
	if k.prov {
		if len(got) != 16 || got[:14] != t.text() || got[14:] != "00" && got[14:] != fmt.Sprintf("%02d", now.Nanosecond()/1e7) {
			s.fail("time", "the equipment's time %v is reported as %q", now, got)
		}
		return
	}
	const l = "20060102150405"
	if len(got) != 16 || strings.Trim(got, "0123456789") != "" || got[:14] < before.Format(l) || got[:14] > after.Format(l) {
		s.fail("time", "without a provider, between %v and %v, the time is reported as %q", before, after, got)
	}
}

func (k *clockRig) set() {
	r, s := k.s.r, k.s
	text := genTimeText(r)
	w, valid, spec := readClock(text)
	body := ref.Asc(text)
	wrong := k.h == nil && r.Intn(12) == 0
	if wrong {
		valid, spec = false, true
		body = []ref.Item{{}, ref.Lst(), ref.Lst(ref.Asc(text)), ref.Bin([]byte(text)...), ref.Uint(ref.U8, 20260102030405), ref.Bool(true)}[r.Intn(6)]
	}
	want := -1
	if k.sync != nil {
		k.sync.mu.Lock()
		k.sync.ack, k.sync.err = 0, nil
		if r.Intn(2) == 0 {
			k.sync.ack = byte(r.Intn(256))
		}
		if r.Intn(6) == 0 {
			k.sync.err = errors.New("no")
		} else if valid {
			want = int(k.sync.ack)
		}
		k.sync.mu.Unlock()
	}
	var ack int
	if k.h != nil {
		a, err := k.h.SetDateTime(text)
		s.note("SetDateTime %q: %d, %v", text, a, err)
		if err != nil {
			if valid && spec {
				s.fail("host-call", "SetDateTime(%q): %v", text, err)
			}
			if k.sync != nil && len(k.sync.take()) > 0 {
				s.fail("host-call", "SetDateTime(%q) fails (%v) but the clock handler was called", text, err)
			}
			return
		}
		ack = int(a)
	} else {
		s.note("S2F31 %s", body)
		it, ok := s.ask(2, 31, body)
		if !ok {
			return
		}
		if ack = ack1(it); ack < 0 {
			s.fail("s2f32", "S2F31 %s is answered with %s", body, it)
			return
		}
	}
	var calls []time.Time
	if k.sync != nil {
		calls = k.sync.take()
	}
	if !spec {
		return
	}
	if !valid {
		s.c.Count("invalid times refused", 1)
		if ack == 0 || len(calls) > 0 {
			s.fail("invalid", "the invalid time %s is answered with %d, clock handler calls %v", body, ack, calls)
		}
		return
	}
	if k.sync != nil {
		if len(calls) != 1 || !sameClock(calls[0], w, text) {
			s.fail("instant", "the time %q reaches the clock handler as %v", text, calls)
			return
		}
		s.c.Count("times passed to the handler", 1)
	}
	if want >= 0 && ack != want || want < 0 && ack == 0 {
		s.fail("verdict", "setting %q, handler %v: TIACK %d, want %d (-1: a refusal)", text, k.sync, ack, want)
	}
}

func p31(c *mon.Ctx) {
	// the process's zone must not matter: one with daylight saving time
	if l, err := time.LoadLocation("America/New_York"); err == nil {
		time.Local = l
		zones[1] = l
	} else {
		c.Inconclusive("no zone data: %v", err)
	}
	var jobs []gemJob
	jobs = addJobs(jobs, "parse", c.N(4, 32), func(label string, i int) {
		r := c.Rng(label)
		for k := 0; k < c.N(20000, 200000); k++ {
			text := genTimeText(r)
			w, valid, spec := readClock(text)
			c.Case(text, true)
			if !spec {
				continue
			}
			t, err := gem.ParseSEMITime(text)
			c.Count("texts parsed", 1)
			if valid != (err == nil) || valid && !sameClock(t, w, text) {
				c.Violate("parse", map[string]any{"text": text}, "%s: ParseSEMITime(%q) gives %v, %v", label, text, t, err)
				return
			}
		}
	})
	jobs = addJobs(jobs, "wire", c.N(24, 160), func(label string, i int) {
		s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		k := &clockRig{s: s}
		for n := 0; n < c.N(300, 1000) && !s.isBad(); n++ {
			c.Case(fmt.Sprint(label, n), true)
			k.step()
		}
		if i == 0 {
			c.Sample(map[string]any{"case": label, "last": s.hist[max(0, len(s.hist)-5):]})
		}
	})
	jobs = addJobs(jobs, "pair", c.N(12, 80), func(label string, i int) {
		s := newGemPair(c, label, nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		k := &clockRig{s: s.gemRig, h: s.H}
		for n := 0; n < c.N(200, 600) && !s.isBad(); n++ {
			c.Case(fmt.Sprint(label, n), true)
			k.step()
		}
	})
	jobs = addJobs(jobs, "host", c.N(8, 48), func(label string, i int) { p31Host(c, label, i) })
	gemJobs(c, 16, jobs)
}

// p31Host: a raw equipment answers a library host.
func p31Host(c *mon.Ctx, label string, i int) {
	s := newGemRig(c, label, []string{"host passive", "host active"}[i%2], nil)
	if s == nil {
		return
	}
	defer s.close()
	var reply, asked atomic.Pointer[ref.Item]
	var n atomic.Int32
	s.e.setHook(func(p *peer.Peer, m ref.Msg) bool {
		if m.SType == ref.Data && m.PType == 0 && m.Stream() == 2 && (m.Function() == 17 || m.Function() == 31) {
			it, _ := m.Item()
			asked.Store(&it)
			n.Add(1)
			p.Send(ref.DataMsg(m.Session, 2, m.Function()+1, false, m.Sys, *reply.Load()))
			return true
		}
		return gemPeer(p, m)
	})
	if !s.comm() {
		return
	}
	r := s.r
	for k := 0; k < c.N(200, 600) && !s.isBad(); k++ {
		c.Case(fmt.Sprint(label, k), true)
		n.Store(0)
		text := genClock(r).text() + fmt.Sprintf("%02d", r.Intn(100))
		wrong := r.Intn(6) == 0
		if r.Intn(2) == 0 {
			rep := ref.Asc(text)
			if wrong {
				rep = []ref.Item{{}, ref.Lst(), ref.Bin(1), ref.Uint(ref.U8, 20260102030405)}[r.Intn(4)]
			}
			reply.Store(&rep)
			got, err := s.G.RequestDateTime()
			if wrong && err == nil || !wrong && (err != nil || got != text) || n.Load() != 1 {
				s.fail("host-read", "S2F18 %s gives %q, %v (asked %d times)", rep, got, err, n.Load())
			}
			continue
		}
		if r.Intn(15) == 0 {
			var err error
			pv, _ := mon.Recover(func() { _, err = s.G.SetDateTime(text + "\xe9") })
			if pv != nil || err == nil || n.Load() > 0 {
				s.fail("host-bad-text", "SetDateTime of text that is not ASCII: %v, panic %v", err, pv)
			}
			continue
		}
		code := byte(r.Intn(256))
		rep := ref.Bin(code)
		if wrong {
			rep = []ref.Item{{}, ref.Lst(), ref.Asc("x"), {K: ref.B}}[r.Intn(4)]
		}
		reply.Store(&rep)
		got, err := s.G.SetDateTime(text)
		if wrong && err == nil || !wrong && (err != nil || got != code) || n.Load() != 1 {
			s.fail("host-set", "S2F32 %s gives %d, %v (asked %d times)", rep, got, err, n.Load())
			return
		}
		if it := asked.Load(); it.K != ref.A || it.Str() != text {
			s.fail("host-set", "SetDateTime(%q) is sent as %s", text, it)
		}
		c.Count("host calls against a raw equipment", 1)
	}
}
