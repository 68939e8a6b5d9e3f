// Property L08: the state, now and at every snapshot block, is what the blocks up to there make it.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func scen(name string, deploy int, prefix []Op, depth int, ops []Op) Scenario {
	s := Sequences(name, Options{}, deploy, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		h := NewHist(c, Options{Cfg: &config.Chain{LedgerGcRetain: 24 * 3600, VmLogAll: true}}, deploy)
		scripts := []types.Address{ContractAddr(0), ContractAddr(1)}
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			if c.Fresh() {
				c.State()
				m := h.Model()
				m.CheckState(h, scripts)
				checkStakes(h, m)
			}
		}
	}
	return s
}

var stake, _ = new(big.Int).SetString("134000000000000000000", 10)

// opStake stakes for user 1.
func opStake(i int) Op {
	return Op{Name: fmt.Sprintf("stake u%d", i), Do: func(h *Hist) bool {
		d, err := abi.ABIQuota.PackMethod(abi.MethodNameStakeV3, Users[1].Addr)
		if err != nil {
			panic(err)
		}
		b, err := h.W.Send(Users[i], types.AddressQuota, ledger.ViteTokenId, stake, d)
		if err != nil {
			h.C.Fail("op:stake", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// checkStakes compares what is staked for the users, as of the latest snapshot block, with the stakes received by then.
func checkStakes(h *Hist, m *Model) {
	keep := m.ConfirmedAt(uint64(len(m.Sbs)))
	for i, u := range Users[:2] {
		want := new(big.Int).Set(StakeQuota)
		for _, b := range m.Chains[types.AddressQuota] {
			if s := m.ByHash[b.FromBlockHash]; s != nil && keep(b) && i == 1 && len(b.SendBlockList) == 0 {
				want.Add(want, s.Amount)
			}
		}
		n, err := h.W.Chain.GetStakeBeneficialAmount(u.Addr)
		if err != nil || n.Cmp(want) != 0 {
			h.C.Fail("state:stake", "the stake for user %d is %v (%v), the history says %v", i, n, err, want)
		}
		q, _, err := h.W.Chain.GetStakeQuota(u.Addr)
		if err != nil || q.Cmp(want) != 0 {
			h.C.Fail("state:stakequota", "the stake for user %d is %v (%v), the history says %v", i, q, err, want)
		}
	}
}

// ifThere is op once contract a exists.
func ifThere(a types.Address, op Op) Op {
	return Op{Name: op.Name, Do: func(h *Hist) bool {
		m, err := h.W.Chain.GetContractMetaInSnapshot(a, h.W.Chain.GetLatestSnapshotBlock().Height)
		if err != nil {
			h.C.Fail("state:GetContractMeta", "%v", err)
		}
		return m != nil && op.Do(h)
	}}
}

func main() {
	Silence()
	c0, c1 := ContractAddr(0), ContractAddr(1)
	Main(Suite{Property: "L08", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 6
		}
		return []Scenario{
			scen("calls", 1, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpSnap()}, d, []Op{OpCall(0, 0, ModeStore), OpCall(1, 0, ModeRevert), OpCall(1, 0, ModeForward), OpCall(0, 0, ModeTwo), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpRestart()}),
			scen("nested", 2, []Op{OpCall(0, 1, ModeNest), OpSnap()}, d, []Op{OpCall(0, 1, ModeNest), OpCRecv(c1, "c1"), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpRestart(), OpDelAccount(c0, "c0", 1)}),
			scen("builtin", 0, []Op{OpXfer(0, 3), OpSnap(), opStake(0)}, d, []Op{opStake(0), OpSpendAll(3, 2), OpRecv(3), OpCRecv(types.AddressQuota, "quota"), OpSnap(), OpRollback(1), OpRollback(2), OpRestart()}),
			scen("deploy", 0, nil, d, []Op{OpDeploy(0), OpCRecv(c0, "c0"), ifThere(c0, OpCall(0, 0, ModeStore)), ifThere(c0, OpXferTo(1, c0, "c0")), OpSnap(), OpFlush(), OpRollback(1), OpRestart()}),
			Asked(scen("calls", 1, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpSnap()}, d-1, []Op{OpCall(0, 0, ModeStore), OpCall(1, 0, ModeRevert), OpCall(1, 0, ModeForward), OpCall(0, 0, ModeTwo), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpRestart()})),
			Asked(scen("nested", 2, []Op{OpCall(0, 1, ModeNest), OpSnap()}, d-1, []Op{OpCall(0, 1, ModeNest), OpCRecv(c1, "c1"), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpRestart(), OpDelAccount(c0, "c0", 1)})),
			Asked(scen("builtin", 0, []Op{OpXfer(0, 3), OpSnap(), opStake(0)}, d-1, []Op{opStake(0), OpSpendAll(3, 2), OpRecv(3), OpCRecv(types.AddressQuota, "quota"), OpSnap(), OpRollback(1), OpRollback(2), OpRestart()})),
			Asked(scen("deploy", 0, nil, d-1, []Op{OpDeploy(0), OpCRecv(c0, "c0"), ifThere(c0, OpCall(0, 0, ModeStore)), ifThere(c0, OpXferTo(1, c0, "c0")), OpSnap(), OpFlush(), OpRollback(1), OpRestart()})),
		}
	}})
}
