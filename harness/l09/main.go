// Property L09: restarting is invisible.
package main

import (
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func main() {
	c0 := ContractAddr(0)
	Main(Suite{Property: "L09", Scenarios: func(tier string) []Scenario {
		d := 5
		if tier == "thorough" {
			d = 7
		}
		o := Options{}
		return []Scenario{
			Sequences("transfers", o, 0, nil, d, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpRestart()}, nil),
			{Name: "service", Bound: "the node running with its background flusher: all sequences of " + string(rune('0'+d-2)) + " steps over {transfer, receive, snapshot}, then stop, start, extend, stop, start", Body: func(c *C) {
				h := NewHist(c, o, 0)
				h.W.Chain.Start()
				c.Defer(func() { h.W.Chain.Stop() })
				for i := 0; i < d-2; i++ {
					h.Step([]Op{OpXfer(0, 1), OpRecv(1), OpSnap()})
				}
				for k := 0; k < 2; k++ {
					h.Step([]Op{OpStopStart()})
					h.Check("service")
					h.Step([]Op{OpXfer(0, 1)})
					h.Step([]Op{OpSnap()})
				}
			}},
			Sequences("contract", o, 1, nil, d-1, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRestart(), OpRollback(1)}, nil),
			Asked(Sequences("transfers", o, 0, nil, d-1, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpRestart()}, nil)),
			Asked(Sequences("contract", o, 1, nil, d-2, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRestart(), OpRollback(1)}, nil)),
		}
	}})
}
