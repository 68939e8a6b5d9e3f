// Property L03: removing unconfirmed account blocks.
package main

import (
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func main() {
	c0 := ContractAddr(0)
	Main(Suite{Property: "L03", Scenarios: func(tier string) []Scenario {
		d := 5
		if tier == "thorough" {
			d = 7
		}
		o := Options{}
		du := func(i, k int) Op { return OpDelAccount(Users[i].Addr, "u"+string(rune('0'+i)), k) }
		dc := func(k int) Op { return OpDelAccount(c0, "c0", k) }
		pre := []Op{OpXfer(0, 1), OpXfer(0, 1), OpRecv(1), OpFlush(), OpXfer(1, 2)}
		prec := []Op{OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpCall(1, 0, ModeStore), OpRecv(2), OpFlush()}
		return []Scenario{
			Sequences("transfers", o, 0, nil, d, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpFlush(), du(0, 1), du(0, 2), du(1, 1)}, nil),
			Sequences("contract", o, 1, nil, d-1, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnapFirst(), OpFlush(), du(0, 1), dc(1), du(2, 1)}, nil),
			Sequences("deploy", o, 0, nil, d-1, []Op{OpDeploy(0), OpDeploy(1), OpCRecv(c0, "c0"), OpSnap(), OpFlush(), OpRestart(), OpDelAccount(ContractOwners[0].Addr, "owner 0", 1), OpDelAccount(ContractOwners[1].Addr, "owner 1", 1), dc(1)}, nil),
			Sequences("deep-transfers", o, 0, pre, d-1, []Op{OpXfer(0, 1), OpRecv(1), OpRecv(2), OpSnapFirst(), OpFlush(), du(0, 1), du(0, 2), du(1, 1), du(1, 2)}, nil),
			Sequences("deep-contract", o, 1, prec, d-2, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpFlush(), du(0, 1), du(1, 1), dc(1), dc(2), OpRollback(1)}, nil),
			Asked(Sequences("transfers", o, 0, nil, d-1, []Op{OpXfer(0, 1), OpRecv(1), OpSnap(), OpFlush(), du(0, 1), du(0, 2), du(1, 1)}, nil)),
			Asked(Sequences("contract", o, 1, nil, d-2, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpRecv(2), OpSnapFirst(), OpFlush(), du(0, 1), dc(1), du(2, 1)}, nil)),
			Asked(Sequences("deep-transfers", o, 0, pre, d-2, []Op{OpXfer(0, 1), OpRecv(1), OpRecv(2), OpSnapFirst(), OpFlush(), du(0, 1), du(0, 2), du(1, 1), du(1, 2)}, nil)),
		}
	}})
}
