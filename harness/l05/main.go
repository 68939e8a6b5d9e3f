// Property L05: every question about blocks is answered from the history of blocks.
package main

import (
	"time"

	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func scen(name string, deploy int, prefix []Op, depth int, ops []Op) Scenario {
	s := Sequences(name, Options{}, deploy, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		h := NewHist(c, Options{}, deploy)
		seen := &Seen{}
		seen.See(h)
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
			seen.See(h)
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			seen.See(h)
			if c.Fresh() {
				c.State()
				h.Model().CheckBlocks(h, seen)
			}
		}
	}
	return s
}

func main() {
	Silence()
	c0 := ContractAddr(0)
	Main(Suite{Property: "L05", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 6
		}
		u1 := Users[1].Addr
		return []Scenario{
			scen("users", 0, []Op{OpXfer(0, 1), OpXfer(0, 1), OpRecv(1)}, d, []Op{OpXfer(0, 1), OpXfer(1, 0), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpFlush(), OpRestart()}),
			scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpSnap()}, d, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeRevert), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), OpDelAccount(c0, "c0", 1), OpRestart()}),
			Asked(scen("users", 0, []Op{OpXfer(0, 1), OpXfer(0, 1), OpRecv(1)}, d-1, []Op{OpXfer(0, 1), OpXfer(1, 0), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpFlush(), OpRestart()})),
			Asked(scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpSnap()}, d-1, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeRevert), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), OpDelAccount(c0, "c0", 1), OpRestart()})),
		}
	}})
}
