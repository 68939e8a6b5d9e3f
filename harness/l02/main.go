// Property L02: rolling the ledger back to a snapshot yields exactly the ledger before that snapshot.
package main

import (
	"time"

	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func main() {
	c0 := ContractAddr(0)
	Main(Suite{Property: "L02", Scenarios: func(tier string) []Scenario {
		d := 5
		if tier == "thorough" {
			d = 7
		}
		o := Options{}
		pre := []Op{OpXfer(0, 1), OpSnap(), OpFlush(), OpXfer(0, 1), OpRecv(1), OpSnap(), OpXfer(1, 2)}
		prec := []Op{OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpSnap(), OpFlush(), OpCall(0, 0, ModeStore), OpCall(1, 0, ModeRevert), OpCRecv(c0, "c0"), OpSnap()}
		// long chains: beyond the redo cache (12), the quota window (75) and one deletion batch (120)
		var long []Op
		for i := 0; i < 132; i++ {
			if i%3 != 2 {
				long = append(long, OpXfer(0, 1))
			}
			if i%4 == 1 {
				long = append(long, OpRecv(1))
			}
			if i%10 == 5 {
				long = append(long, OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"))
			}
			long = append(long, OpSnap())
			if i%50 == 49 {
				long = append(long, OpFlush())
			}
		}
		// older than the undo log (1200 snapshots): rolled back from the history of the state instead
		c1 := ContractAddr(1)
		old := []Op{OpXfer(0, 1), OpSnap(), OpRecv(1), OpDeploy(1), OpSnap(), OpCRecv(c1, "c1"), OpCall(0, 0, ModeForward), OpSnap(),
			OpCRecv(c0, "c0"), OpCall(0, 1, ModeNest), OpSnap(), OpCRecv(c1, "c1"), OpSnap(), OpXfer(1, 2), OpCRecv(c0, "c0"), OpCall(1, 0, ModeForward), OpSnap(),
			OpRecv(2), OpCRecv(c0, "c0"), OpCall(0, 0, ModeStore), OpSnap(), OpRecv(2), OpCRecv(c0, "c0"), OpSnap(), OpXfer(0, 1), OpCall(0, 1, ModeNest), OpSnap(), OpCRecv(c1, "c1"), OpSnap()}
		for i := 0; i < 1198; i++ {
			old = append(old, OpSnap())
		}
		old = append(old, OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpXfer(0, 1))
		var olds []Op
		for _, n := range []uint64{1199, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207} {
			olds = append(olds, OpRollback(n))
		}
		oldScen := Sequences("old", Options{DumpSkip: [2]uint64{16, 1205}}, 1, old, d-3, append(olds, OpXfer(0, 1), OpSnap(), OpRollback(1)), nil)
		oldScen.Timeout = 3 * time.Minute
		return []Scenario{
			oldScen,
			Sequences("long", o, 1, long, d-3, []Op{OpXfer(0, 1), OpSnap(), OpRollback(1), OpRollback(13), OpRollback(80), OpRollback(121), OpRollback(128)}, nil),
			Sequences("transfers", o, 0, nil, d, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2)}, nil),
			Sequences("contract", o, 1, nil, d-1, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2)}, nil),
			Sequences("deploy", o, 0, nil, d-1, []Op{OpDeploy(0), OpDeploy(1), OpCRecv(c0, "c0"), OpCRecv(ContractAddr(1), "c1"), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2), OpRestart()}, nil),
			Sequences("deep-transfers", o, 0, pre, d-1, []Op{OpXfer(0, 1), OpRecv(1), OpRecv(2), OpSnap(), OpSnapFirst(), OpFlush(), OpRollback(1), OpRollback(2), OpRollback(3)}, nil),
			Sequences("deep-contract", o, 1, prec, d-1, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpSnap(), OpSnapFirst(), OpFlush(), OpRollback(1), OpRollback(2), OpRollback(3)}, nil),
			Asked(Sequences("transfers", o, 0, nil, d-1, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2)}, nil)),
			Asked(Sequences("contract", o, 1, nil, d-2, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2)}, nil)),
			Asked(Sequences("deploy", o, 0, nil, d-2, []Op{OpDeploy(0), OpDeploy(1), OpCRecv(c0, "c0"), OpCRecv(ContractAddr(1), "c1"), OpSnap(), OpFlush(), OpRollback(1), OpRollback(2), OpRestart()}, nil)),
			Asked(Sequences("deep-transfers", o, 0, pre, d-2, []Op{OpXfer(0, 1), OpRecv(1), OpRecv(2), OpSnap(), OpSnapFirst(), OpFlush(), OpRollback(1), OpRollback(2), OpRollback(3)}, nil)),
			Asked(Sequences("deep-contract", o, 1, prec, d-2, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpSnap(), OpSnapFirst(), OpFlush(), OpRollback(1), OpRollback(2), OpRollback(3)}, nil)),
		}
	}})
}
