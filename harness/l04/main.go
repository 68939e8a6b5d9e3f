// Property L04: no token appears, disappears or is spent twice.
package main

import (
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func scen(name string, deploy int, prefix []Op, depth int, ops []Op) Scenario {
	s := Sequences(name, Options{}, deploy, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		h := NewHist(c, Options{}, deploy)
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			if c.Fresh() {
				c.State()
				h.Model().CheckValue(h, ContractAddr(0), ContractAddr(1))
				again(h)
			}
		}
	}
	return s
}

// again tries to receive every received send once more, and to receive what belongs to another.
func again(h *Hist) {
	m := h.Model()
	for _, e := range h.Log {
		if e.AB == nil {
			continue
		}
		for _, s := range append([]*ledger.AccountBlock{e.AB}, e.AB.SendBlockList...) {
			if !s.IsSendBlock() {
				continue
			}
			r := m.Recv[s.Hash]
			for i, u := range Users[:3] {
				if r == nil && s.ToAddress == u.Addr || types.IsContractAddr(s.ToAddress) && i > 0 {
					continue
				}
				prev := m.Chains[u.Addr]
				if len(prev) == 0 {
					continue
				}
				b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: u.Addr, Height: uint64(len(prev)) + 1, PrevHash: prev[len(prev)-1].Hash, FromBlockHash: s.Hash}
				b.Hash = b.ComputeHash()
				b.Signature, b.PublicKey, _ = u.Sign(b.Hash.Bytes())
				if _, err := h.W.SubmitRaw(b); err == nil {
					h.C.Fail("value:again", "user %d receives send %s of %v to %s, received by %v", i, s.Hash, s.Amount, s.ToAddress, r)
				}
			}
		}
	}
}

func opStake(i int) Op {
	return Op{Name: "stake u" + string(rune('0'+i)), Do: func(h *Hist) bool {
		d, err := abi.ABIQuota.PackMethod(abi.MethodNameStakeV3, Users[1].Addr)
		if err != nil {
			panic(err)
		}
		n, _ := new(big.Int).SetString("134000000000000000000", 10)
		b, err := h.W.Send(Users[i], types.AddressQuota, ledger.ViteTokenId, n, d)
		if err != nil {
			h.C.Fail("op:stake", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// opBadStake is refused by the contract, which sends the amount back.
func opBadStake(i int) Op {
	return Op{Name: "bad stake u" + string(rune('0'+i)), Do: func(h *Hist) bool {
		d, err := abi.ABIQuota.PackMethod(abi.MethodNameCancelStakeV3, types.Hash{1})
		if err != nil {
			panic(err)
		}
		b, err := h.W.Send(Users[i], types.AddressQuota, ledger.ViteTokenId, new(big.Int), d)
		if err != nil {
			h.C.Fail("op:bad stake", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

func main() {
	Silence()
	c0, c1 := ContractAddr(0), ContractAddr(1)
	q := types.AddressQuota
	Main(Suite{Property: "L04", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 6
		}
		u1 := Users[1].Addr
		return []Scenario{
			scen("users", 0, []Op{OpXfer(0, 1), OpSnap()}, d, []Op{OpXfer(0, 1), OpXfer(1, 1), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpRestart()}),
			scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeSplit)}, d, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeRevert), OpCall(0, 0, ModeFwdRev), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpDelAccount(c0, "c0", 1), OpRestart()}),
			scen("nested", 2, []Op{OpCall(0, 1, ModeNest), OpSnap()}, d, []Op{OpCall(0, 1, ModeNest), OpCall(0, 1, ModeBurn), OpCRecv(c1, "c1"), OpCRecv(c0, "c0"), OpRecv(2), OpRecv(0), OpSnap(), OpRollback(1)}),
			scen("built-in", 1, []Op{opStake(0)}, d, []Op{opStake(0), opBadStake(1), OpDeploy(1), OpCRecv(q, "quota"), OpCRecv(c1, "c1"), OpSnap(), OpRollback(1), OpRestart()}),
			Asked(scen("users", 0, []Op{OpXfer(0, 1), OpSnap()}, d-1, []Op{OpXfer(0, 1), OpXfer(1, 1), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpRestart()})),
			Asked(scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeSplit)}, d-1, []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeRevert), OpCall(0, 0, ModeFwdRev), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpDelAccount(c0, "c0", 1), OpRestart()})),
			Asked(scen("nested", 2, []Op{OpCall(0, 1, ModeNest), OpSnap()}, d-1, []Op{OpCall(0, 1, ModeNest), OpCall(0, 1, ModeBurn), OpCRecv(c1, "c1"), OpCRecv(c0, "c0"), OpRecv(2), OpRecv(0), OpSnap(), OpRollback(1)})),
			Asked(scen("built-in", 1, []Op{opStake(0)}, d-1, []Op{opStake(0), opBadStake(1), OpDeploy(1), OpCRecv(q, "quota"), OpCRecv(c1, "c1"), OpSnap(), OpRollback(1), OpRestart()})),
		}
	}})
}
