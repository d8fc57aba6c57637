package props

import "verifharness/mon"

var all = map[string]*mon.Check{}

func reg(c *mon.Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	all[c.ID] = c
}

func Get(id string) *mon.Check { return all[id] }
