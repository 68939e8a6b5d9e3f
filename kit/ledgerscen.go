package kit

import "strings"

// Names lists op names for a bound description.
func Names(ops []Op) string {
	var s []string
	for i, o := range ops {
		if i == 24 {
			s = append(s, "... "+itoa(len(ops))+" in all")
			break
		}
		s = append(s, o.Name)
	}
	return strings.Join(s, ", ")
}

// Sequences explores every sequence of depth ops after the fixed prefix and compares the ledger with
// its reference after every step.
func Sequences(name string, o Options, deploy int, prefix []Op, depth int, ops []Op, ignore func(string) bool) Scenario {
	b := "all sequences of " + itoa(depth) + " steps over {" + Names(ops) + "}"
	if len(prefix) > 0 {
		b += " after [" + Names(prefix) + "]"
	}
	return Scenario{Name: name, Bound: b, Body: func(c *C) {
		h := NewHist(c, o, deploy)
		h.Ignore = ignore
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			if c.Fresh() {
				h.Check(name)
			}
		}
	}}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
