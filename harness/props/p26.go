package props

import (
	"verifharness/mon"
)

func init() {
	reg(&mon.Check{ID: "P26", Race: true, Run: p26,
		Rule: "one case is one S2F33, S2F35 or S2F37 with its code compared with the definition model, followed by S6F15 of every event; distinct by body",
		Assume: []string{"a request with several faults may be refused with the code of any of them",
			"unspecified, the answer is followed: deleting and defining one report (linking and unlinking one event) in one message, deleting a report that does not exist, enabling an event without a link",
			"a link starts enabled; DATAID in S6F16 is not compared"}})
}

func p26(c *mon.Ctx) {
	var jobs []gemJob
	jobs = addJobs(jobs, "wire", c.N(48, 400), func(label string, i int) {
		s := newGemRig(c, label, []string{"equipment passive", "equipment active"}[i%2], nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		r := s.r
		g := newEvStoreSize(s, i%8 >= 6)
		for k := 0; k < c.N(160, 500) && !s.isBad(); k++ {
			switch r.Intn(12) {
			case 0:
				g.addVar()
			case 1:
				g.addCE()
			case 2:
				g.changeVar()
			default:
				g.change(nil, true)
				if !s.isBad() {
					g.look(nil)
				}
			}
			if r.Intn(150) == 0 && !s.isBad() { // definitions outlive the connection
				s.p.Close()
				s.note("connection ended and made again")
				if !s.link() {
					return
				}
				g.look(nil)
			}
		}
		if i == 0 {
			c.Sample(map[string]any{"case": label, "last": s.hist[len(s.hist)-3:]})
		}
	})
	jobs = addJobs(jobs, "pair", c.N(12, 100), func(label string, i int) {
		s := newGemPair(c, label, nil)
		if s == nil {
			return
		}
		defer s.close()
		if !s.comm() {
			return
		}
		r := s.r
		g := newEvStoreSize(s.gemRig, i%4 == 3)
		for k := 0; k < c.N(120, 400) && !s.isBad(); k++ {
			if r.Intn(8) == 0 {
				g.changeVar()
			}
			g.change(s.H, false)
			if !s.isBad() {
				g.look(s.H)
			}
		}
	})
	gemJobs(c, 16, jobs)
}

// newEvStoreSize is a store of a few or (big) of dozens of events and reports, in long messages.
func newEvStoreSize(s *gemRig, big bool) *evStore {
	r := s.r
	if !big {
		return newEvStore(s, 2+r.Intn(6), 1+r.Intn(4), 2+r.Intn(5))
	}
	g := newEvStore(s, 20+r.Intn(40), 20+r.Intn(60), 20+r.Intn(60))
	g.big = true
	return g
}
