// Property S03: the votes, candidates and balances kept for elections are those of the ledger.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

const period = 100 * time.Second

// do sends.
func do(h *Hist, u *Acct, to types.Address, amount *big.Int, data []byte) {
	s, err := h.W.Send(u, to, ledger.ViteTokenId, amount, data)
	if err != nil {
		h.C.Fail("op:send", "%v", err)
	}
	h.Log = append(h.Log, Entry{AB: s})
}

// receive lets the governance contract receive what is confirmed.
func receive(h *Hist) {
	l, err := h.W.Chain.GetOnRoadBlocksByAddr(types.AddressGovernance, 0, 100)
	if err != nil {
		h.C.Fail("op:onroad", "%v", err)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].AccountAddress == l[j].AccountAddress {
			return l[i].Height < l[j].Height
		}
		return l[i].AccountAddress.Hex() < l[j].AccountAddress.Hex()
	})
	for _, s := range l {
		if n, err := h.W.Chain.GetConfirmedTimes(s.Hash); err != nil || n == 0 {
			continue
		}
		r, err := h.W.Receive(s, Producer)
		if err != nil {
			h.C.Fail("op:receive", "%v", err)
		}
		h.Log = append(h.Log, Entry{AB: r})
	}
}

func pack(method string, args ...interface{}) []byte {
	d, err := abi.ABIGovernance.PackMethod(method, args...)
	if err != nil {
		panic(err)
	}
	return d
}

// change number n alters votes, registrations and balances.
func change(h *Hist, n int) {
	gov := types.AddressGovernance
	switch n % 4 {
	case 0: // two users vote
		do(h, Users[0], gov, new(big.Int), pack(abi.MethodNameVote, types.SNAPSHOT_GID, "s1"))
		do(h, Users[1], gov, new(big.Int), pack(abi.MethodNameVote, types.SNAPSHOT_GID, "s2"))
	case 1: // user 1 changes its mind, user 0 pays twice
		do(h, Users[1], gov, new(big.Int), pack(abi.MethodNameVote, types.SNAPSHOT_GID, "s1"))
		do(h, Users[0], Users[2].Addr, big.NewInt(int64(n+1)), nil)
		do(h, Users[0], Users[2].Addr, big.NewInt(int64(n+2)), nil)
	case 2: // one vote less, everything user 3 has goes away
		do(h, Users[0], gov, new(big.Int), pack(abi.MethodNameCancelVote, types.SNAPSHOT_GID))
		b, err := h.W.Chain.GetBalance(Users[3].Addr, ledger.ViteTokenId)
		if err != nil {
			h.C.Fail("op:balance", "%v", err)
		}
		do(h, Users[3], Users[2].Addr, b, nil)
	case 3: // no vote any more
		do(h, Users[1], gov, new(big.Int), pack(abi.MethodNameCancelVote, types.SNAPSHOT_GID))
		do(h, Users[0], gov, new(big.Int), pack(abi.MethodNameVote, types.SNAPSHOT_GID, "s2"))
	}
}

// opSnap changes something (or not) and inserts a snapshot block rounds later.
func opSnap(rounds int64, quiet bool) Op {
	name := fmt.Sprintf("snap +%d", rounds)
	if quiet {
		name += " quiet"
	}
	return Op{Name: name, Do: func(h *Hist) bool {
		if !quiet {
			receive(h)
			change(h, int(h.W.Chain.GetLatestSnapshotBlock().Height))
		}
		at := h.W.Chain.GetLatestSnapshotBlock().Timestamp
		gap := time.Second
		if rounds > 0 {
			k := int64(at.Sub(h.W.Genesis) / period)
			gap = h.W.Genesis.Add(time.Duration(k+rounds) * period).Sub(*at)
		}
		h.W.SnapGap = gap
		b, err := h.W.Snapshot()
		if err != nil {
			h.C.Fail("op:snapshot", "%v", err)
		}
		h.Log = append(h.Log, Entry{SB: b})
		return true
	}}
}

var watched = func() []types.Address {
	l := []types.Address{types.AddressGovernance, types.AddressQuota, Producer.Addr, NewAcct(0x77).Addr}
	for _, u := range Users {
		l = append(l, u.Addr)
	}
	return l
}()

// votes, candidates and balances as of a snapshot block, as text.
func answers(h *Hist, hash types.Hash) string {
	ch := h.W.Chain
	var out string
	add := func(what string, v interface{}, err error) {
		out += what + " " + JSON(v)
		if err != nil {
			out += " error"
		}
		out += "\n"
	}
	for _, gid := range []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID} {
		v, err := ch.GetVoteList(hash, gid)
		sort.Slice(v, func(i, j int) bool { return v[i].VoteAddr.Hex() < v[j].VoteAddr.Hex() })
		add("votes", v, err)
		r, err := ch.GetRegisterList(hash, gid)
		sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
		add("candidates", r, err)
		r, err = ch.GetAllRegisterList(hash, gid)
		sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
		add("registrations", r, err)
		g, err := ch.GetConsensusGroup(hash, gid)
		add("group", g, err)
	}
	g, err := ch.GetConsensusGroupList(hash)
	sort.Slice(g, func(i, j int) bool { return g[i].Gid.String() < g[j].Gid.String() })
	add("groups", g, err)
	for _, tk := range []types.TokenTypeId{ledger.ViteTokenId, types.CreateTokenTypeId([]byte("none"))} {
		m, err := ch.GetConfirmedBalanceList(watched, tk, hash)
		var l []string
		for _, a := range watched {
			if b := m[a]; b != nil {
				l = append(l, a.Hex()+"="+b.String())
			}
		}
		add("balances", l, err)
	}
	return out
}

// model checks votes and users' balances as of a snapshot block of the chain against the list of blocks.
func model(h *Hist, x types.Hash) {
	ch := h.W.Chain
	sb, err := ch.GetSnapshotBlockByHash(x)
	if err != nil || sb == nil {
		return // removed
	}
	g := ch.GetGenesisSnapshotBlock()
	votes := map[types.Address]string{}
	list, err := ch.GetVoteList(g.Hash, types.SNAPSHOT_GID)
	if err != nil {
		h.C.Fail("elections:error", "%v", err)
	}
	for _, v := range list {
		votes[v.VoteAddr] = v.SbpName
	}
	var users []types.Address
	for _, u := range Users {
		users = append(users, u.Addr)
	}
	spent, err := ch.GetConfirmedBalanceList(users, ledger.ViteTokenId, g.Hash)
	if err != nil {
		h.C.Fail("elections:error", "%v", err)
	}
	sends := map[types.Hash]*ledger.AccountBlock{}
	pending := map[types.Address][]*ledger.AccountBlock{}
	for _, e := range h.Log {
		if e.AB != nil {
			sends[e.AB.Hash] = e.AB
			pending[e.AB.AccountAddress] = append(pending[e.AB.AccountAddress], e.AB)
			continue
		}
		if e.SB == nil {
			continue
		}
		if e.SB.Height > sb.Height {
			break
		}
		for a, hh := range e.SB.SnapshotContent {
			l := pending[a]
			for len(l) > 0 && l[0].Height <= hh.Height {
				b := l[0]
				l = l[1:]
				if b.IsSendBlock() {
					if v := spent[a]; v != nil {
						spent[a] = new(big.Int).Sub(v, b.Amount)
					}
				} else if from := sends[b.FromBlockHash]; a == types.AddressGovernance && from != nil {
					delete(votes, from.AccountAddress)
					for _, name := range []string{"s1", "s2"} {
						if string(from.Data) == string(pack(abi.MethodNameVote, types.SNAPSHOT_GID, name)) {
							votes[from.AccountAddress] = name
						}
					}
				}
			}
			pending[a] = l
		}
	}
	list, err = ch.GetVoteList(x, types.SNAPSHOT_GID)
	got := map[types.Address]string{}
	for _, v := range list {
		got[v.VoteAddr] = v.SbpName
	}
	if err != nil || len(list) != len(got) || JSON(got) != JSON(votes) {
		h.C.Fail("ledger:votes", "as of snapshot block %d the votes are %s (%v), by the blocks they are %s", sb.Height, JSON(list), err, JSON(votes))
	}
	bal, err := ch.GetConfirmedBalanceList(users, ledger.ViteTokenId, x)
	for _, a := range users {
		if w := spent[a]; w != nil && (err != nil || bal[a] == nil || bal[a].Cmp(w) != 0) {
			h.C.Fail("ledger:balances", "as of snapshot block %d the balance of %s is %v (%v), by its blocks it is %v", sb.Height, a, bal[a], err, w)
		}
	}
}

func check(h *Hist, hashes []types.Hash) {
	for _, x := range hashes {
		h.W.Chain.SetCacheLevelForConsensus(0)
		model(h, x)
		h.W.Chain.SetCacheLevelForConsensus(0)
		want := answers(h, x)
		h.W.Chain.SetCacheLevelForConsensus(1)
		got := answers(h, x)
		h.W.Chain.SetCacheLevelForConsensus(0)
		if got != want {
			sb, _ := h.W.Chain.GetSnapshotBlockByHash(x)
			height := uint64(0)
			if sb != nil {
				height = sb.Height
			}
			a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
			for i := range a {
				if a[i] != b[i] {
					h.C.Fail("elections:"+strings.Fields(b[i] + " ")[0], "as of snapshot block %d the value kept is\n%s\nthe ledger has\n%s", height, a[i], b[i])
				}
			}
		}
	}
}

func scen(name string, prefix []Op, depth int, ops []Op) Scenario {
	o := Options{Period: period, Gen: Genesis(func(g *config.Genesis) {
		for _, m := range g.GovernanceInfo.RegistrationInfoMap {
			for _, r := range m {
				c := *r
				a := NewAcct(0xE1).Addr
				c.BlockProducingAddress, c.HistoryAddressList = &a, []types.Address{a}
				m["s2"] = &c
				break
			}
		}
	})}
	s := Sequences(name, o, 0, prefix, depth, ops, nil)
	s.Body = func(c *C) {
		h := NewHist(c, o, 0)
		seen := map[types.Hash]bool{}
		var order []types.Hash
		see := func() {
			for _, e := range h.Log {
				if e.SB != nil && !seen[e.SB.Hash] {
					seen[e.SB.Hash] = true
					order = append(order, e.SB.Hash)
				}
			}
		}
		see()
		for _, p := range prefix {
			if !p.Do(h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
			see()
		}
		for i := 0; i < depth; i++ {
			h.Step(ops)
			see()
			if c.Fresh() {
				c.State()
				if n := len(order) - 8; n > 0 {
					check(h, order[n:])
				} else {
					check(h, order)
				}
			}
		}
	}
	return s
}

func main() {
	Silence()
	Main(Suite{Property: "S03", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 6
		}
		one := opSnap(1, false)
		ops := []Op{opSnap(0, false), one, opSnap(2, true), OpRollback(1), OpRollback(2), OpRollback(4), OpRestart()}
		return []Scenario{
			scen("start", nil, d+1, []Op{opSnap(0, false), one, opSnap(2, false), OpRollback(1), OpRollback(3)}),
			scen("running", []Op{one, one, opSnap(0, false), one, opSnap(0, false), one, opSnap(0, false)}, d, ops),
			Asked(scen("start", nil, d, []Op{opSnap(0, false), one, opSnap(2, false), OpRollback(1), OpRollback(3)})),
			Asked(scen("running", []Op{one, one, opSnap(0, false), one, opSnap(0, false), one, opSnap(0, false)}, d-1, ops)),
		}
	}})
}
