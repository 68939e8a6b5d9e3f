// Property R02: the token history of an account and the summary of what it has not received.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	plugins "github.com/vitelabs/go-vite/v2/ledger/chain/plugins"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

func options() Options {
	return Options{Cfg: &config.Chain{LedgerGcRetain: 24 * 3600, OpenPlugins: true}}
}

// sendOf finds the send a receive block answers.
func sendOf(m *Model, b *ledger.AccountBlock) *ledger.AccountBlock {
	if b.IsSendBlock() {
		return b
	}
	return m.ByHash[b.FromBlockHash]
}

// moves says whether block b moves token t: as the send, as the receive of one, or with a send it triggers.
func moves(m *Model, b *ledger.AccountBlock, t types.TokenTypeId) bool {
	if s := sendOf(m, b); s != nil && s.TokenId == t {
		return true
	}
	for _, s := range b.SendBlockList {
		if s.TokenId == t {
			return true
		}
	}
	return false
}

func heights(l []*ledger.AccountBlock) string {
	var s []string
	for _, b := range l {
		s = append(s, fmt.Sprintf("%d:%s", b.Height, b.Hash.String()[:8]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// tokens are those the history knows, and one nobody has.
func tokens(m *Model) []types.TokenTypeId {
	set := map[types.TokenTypeId]bool{ledger.ViteTokenId: true, {9, 9}: true}
	for _, b := range m.ByHash {
		if b.IsSendBlock() {
			set[b.TokenId] = true
		}
	}
	var l []types.TokenTypeId
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func addrs(m *Model) []types.Address {
	set := map[types.Address]bool{ContractAddr(0): true}
	for _, u := range Users {
		set[u.Addr] = true
	}
	for _, b := range m.ByHash {
		set[b.AccountAddress] = true
		if b.IsSendBlock() {
			set[b.ToAddress] = true
		}
	}
	var l []types.Address
	for a := range set {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func check(h *Hist) {
	m := h.Model()
	ft, ok := h.W.Chain.Plugins().GetPlugin("filterToken").(*plugins.FilterToken)
	if !ok {
		h.C.Fail("plugin", "no token history")
	}
	for _, a := range addrs(m) {
		for _, t := range tokens(m) {
			var all []*ledger.AccountBlock
			for _, b := range m.Chains[a] {
				if b.BlockType != ledger.BlockTypeGenesisReceive && moves(m, b, t) {
					all = append([]*ledger.AccountBlock{b}, all...)
				}
			}
			drop := func(l []*ledger.AccountBlock) (r []*ledger.AccountBlock) {
				for _, b := range l {
					if b.BlockType != ledger.BlockTypeGenesisReceive {
						r = append(r, b)
					}
				}
				return
			}
			for _, n := range []uint64{1, 2, 100} {
				got, err := ft.GetBlocks(a, t, nil, n)
				want := all
				if uint64(len(want)) > n {
					want = want[:n]
				}
				if err != nil || heights(drop(got)) != heights(want) {
					h.C.Fail("token-history", "token history of %s, token %s, count %d: %s (%v), the ledger has %s", a, t, n, heights(drop(got)), err, heights(want))
				}
				for i, from := range all {
					want := all[i:]
					if uint64(len(want)) > n {
						want = want[:n]
					}
					got, err := ft.GetBlocks(a, t, &from.Hash, n)
					if err != nil || heights(drop(got)) != heights(want) {
						h.C.Fail("token-history-from", "token history of %s, token %s, from height %d, count %d: %s (%v), the ledger has %s", a, t, from.Height, n, heights(drop(got)), err, heights(want))
					}
				}
			}
		}
		num := map[types.TokenTypeId]int{}
		sum := map[types.TokenTypeId]*big.Int{}
		for _, s := range m.Pending(a) {
			num[s.TokenId]++
			if sum[s.TokenId] == nil {
				sum[s.TokenId] = new(big.Int)
			}
			if s.Amount != nil {
				sum[s.TokenId].Add(sum[s.TokenId], s.Amount)
			}
		}
		var want []string
		total := 0
		for t, n := range num {
			want = append(want, fmt.Sprintf("%s: %d blocks, %s", t, n, sum[t]))
			total += n
		}
		info, err := h.W.Chain.GetAccountOnRoadInfo(a)
		if err != nil {
			h.C.Fail("summary", "summary of what %s has not received: %v", a, err)
		}
		var got []string
		for t, i := range info.TokenBalanceInfoMap {
			got = append(got, fmt.Sprintf("%s: %d blocks, %s", t, i.Number, i.TotalAmount.String()))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "; ") != strings.Join(got, "; ") || info.TotalNumber != uint64(total) || info.AccountAddress != a {
			h.C.Fail("summary", "summary of what %s has not received: %d blocks {%s}, the ledger has %d {%s}", a, info.TotalNumber, strings.Join(got, "; "), total, strings.Join(want, "; "))
		}
	}
}

// opIssue makes user i issue a token of which it gets 1000 units.
func opIssue(i int) Op {
	return Op{Name: fmt.Sprintf("issue u%d", i), Do: func(h *Hist) bool {
		d, err := abi.ABIAsset.PackMethod(abi.MethodNameIssue, true, "Coin", "AAA", big.NewInt(1000), uint8(2), big.NewInt(100000), false)
		if err != nil {
			panic(err)
		}
		b, err := h.W.Send(Users[i], types.AddressAsset, ledger.ViteTokenId, new(big.Int), d)
		if err != nil {
			h.C.Fail("op:issue", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// opCoin sends one unit of a token user i owns, other than VITE.
func opCoin(i int, to types.Address, tag string, data []byte) Op {
	return Op{Name: fmt.Sprintf("coin u%d>%s", i, tag), Do: func(h *Hist) bool {
		bm, err := h.W.Chain.GetBalanceMap(Users[i].Addr)
		if err != nil {
			h.C.Fail("op:coin", "%v", err)
		}
		var ts []types.TokenTypeId
		for t, n := range bm {
			if t != ledger.ViteTokenId && n.Sign() > 0 {
				ts = append(ts, t)
			}
		}
		if len(ts) == 0 {
			return false
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
		b, err := h.W.Send(Users[i], to, ts[0], big.NewInt(1), data)
		if err != nil {
			h.C.Fail("op:coin", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: b})
		return true
	}}
}

// opRebuild is what the offline tool does: it knows confirmed blocks only.
func opRebuild() Op {
	return Op{Name: "rebuild", Do: func(h *Hist) bool {
		if len(h.Confirmed()) != len(h.Log) {
			return false
		}
		if err := h.W.Chain.Plugins().RebuildData(); err != nil {
			h.C.Fail("op:rebuild", "%v", err)
		}
		return true
	}}
}

func scen(name string, deploy int, prefix []Op, depth int, ops []Op) Scenario {
	s := Sequences(name, options(), deploy, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		h := NewHist(c, options(), deploy)
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		if c.Fresh() {
			check(h)
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			if c.Fresh() {
				c.State()
				check(h)
			}
		}
	}
	return s
}

func main() {
	Silence()
	c0 := ContractAddr(0)
	as := types.AddressAsset
	u1, u2 := Users[1].Addr, Users[2].Addr
	fwd := ScriptData(1, 1, ModeForward, u2)
	coin := []Op{opIssue(0), OpSnap(), OpCRecv(as, "asset"), OpRecv(0)}
	Main(Suite{Property: "R02", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 6
		}
		return []Scenario{
			scen("users", 0, []Op{OpXfer(0, 1), OpSnap()}, d, []Op{OpXfer(0, 1), OpXfer(1, 1), OpRecv(1), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(u1, "u1", 1), OpFlush(), OpRestart()}),
			scen("coins", 1, append(append([]Op{}, coin...), OpSnap()), d, []Op{opCoin(0, u1, "u1", nil), OpXfer(0, 1), opCoin(0, c0, "c0", fwd), OpRecv(1), OpCRecv(c0, "c0"), OpSnap(), OpRollback(1), OpFlush(), OpRestart()}),
			scen("issue", 0, nil, d, []Op{opIssue(0), OpCRecv(as, "asset"), OpRecv(0), OpSnap(), OpRollback(1), OpDelAccount(as, "asset", 1), OpFlush(), OpRestart()}),
			scen("contract", 1, []Op{OpCall(0, 0, ModeForward), OpCall(1, 0, ModeSplit)}, d, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), OpRollback(2), OpDelAccount(c0, "c0", 1), OpRestart()}),
			scen("rebuild", 1, append(append([]Op{}, coin...), OpCall(0, 0, ModeSplit), OpSnap(), OpCRecv(c0, "c0")), d-1, []Op{opCoin(0, u1, "u1", nil), OpRecv(2), OpSnap(), OpSnapFirst(), OpRollback(1), opRebuild(), OpRestart()}),
		}
	}})
}
