// Property R03: the contract RPC interface reports stakes, producers, votes, tokens and contracts exactly.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	vite "github.com/vitelabs/go-vite/v2"
	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/rpc"
	"github.com/vitelabs/go-vite/v2/rpcapi/api"
	"github.com/vitelabs/go-vite/v2/vm/abi"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

// node is a node that was built but not started, with the RPC interface over its ledger.
type node struct {
	v  *vite.Vite
	s  *rpc.Server
	cl *rpc.Client
}

func options(n *node) Options {
	o := Options{Cfg: &config.Chain{LedgerGcRetain: 24 * 3600, OpenPlugins: true, VmLogAll: true}}
	o.NewChain = func(o Options) (chain.Chain, error) {
		upgrade.CleanupUpgradeBox()
		v, err := vite.New(&config.Config{Producer: &config.Producer{}, Chain: o.Cfg, Vm: &config.Vm{}, Net: &config.Net{Single: true, DataDir: filepath.Join(o.Dir, "net")}, Genesis: o.Gen, DataDir: o.Dir}, nil)
		if err != nil {
			return nil, err
		}
		n.close()
		n.v = v
		n.s = rpc.NewServer()
		if err := n.s.RegisterName("contract", api.NewContractApi(v)); err != nil {
			return nil, err
		}
		n.cl = rpc.DialInProc(n.s)
		return v.Chain(), nil
	}
	return o
}

func (n *node) close() {
	if n.cl != nil {
		n.cl.Close()
		n.s.Stop()
	}
	n.cl, n.s = nil, nil
}

type obj = map[string]interface{}

// ask sends one request and returns the decoded answer.
func (n *node) ask(method string, args ...interface{}) (interface{}, error) {
	var raw json.RawMessage
	if err := n.cl.Call(&raw, "contract_"+method, args...); err != nil {
		return nil, err
	}
	if len(raw) == 0 { // null
		return nil, nil
	}
	return decode(raw), nil
}

func decode(raw []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(fmt.Sprint("answer is not JSON: ", string(raw)))
	}
	return v
}

// norm is the JSON value of v.
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return decode(b)
}

func text(v interface{}) string {
	b, _ := json.Marshal(v)
	if len(b) > 500 {
		b = append(b[:500], "..."...)
	}
	return string(b)
}

// differ explains where got departs from want: every key of want must be there with its value.
func differ(path string, want, got interface{}) string {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: %s instead of %s", path, text(got), text(want))
		}
		keys := []string{}
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if d := differ(path+"."+k, w[k], g[k]); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, _ := got.([]interface{})
		if len(g) != len(w) {
			return fmt.Sprintf("%s: %d items instead of %d: %s, want %s", path, len(g), len(w), text(got), text(want))
		}
		for i := range w {
			if d := differ(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if text(want) != text(got) {
		if (want == nil || want == "") && (got == nil || got == "") { // empty bytes
			return ""
		}
		return fmt.Sprintf("%s: %s instead of %s", path, text(got), text(want))
	}
	return ""
}

type view struct {
	n *node
	h *Hist
	m *Model
}

func (v *view) eq(want interface{}, method string, args ...interface{}) {
	got, err := v.n.ask(method, args...)
	if err != nil {
		v.h.C.Fail(method, "%s%s: %v, the ledger has %s", method, text(args), err, text(norm(want)))
	}
	if d := differ("answer", norm(want), got); d != "" {
		v.h.C.Fail(method, "%s%s: %s", method, text(args), d)
	}
}

func (v *view) absent(method string, args ...interface{}) {
	got, err := v.n.ask(method, args...)
	if err == nil && got != nil {
		if l, ok := got.([]interface{}); ok && len(l) == 0 {
			return
		}
		v.h.C.Fail(method, "%s%s: %s, the ledger has nothing", method, text(args), text(got))
	}
}

func ustr(n uint64) string { return strconv.FormatUint(n, 10) }

const stakeLock = 600 // snapshot blocks a stake is locked for, test parameters
const regLock = 1     // snapshot blocks a registration is locked for, genesis

func vites(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), big.NewInt(1e18)) }

type stake struct {
	owner, benef types.Address
	amount       *big.Int
	exp          uint64
	id           *types.Hash
}

type reg struct {
	name        string
	p, w, owner types.Address
	amount      *big.Int
	exp         uint64
}

type token struct {
	id            types.TokenTypeId
	name, sym     string
	supply, max   *big.Int
	dec           uint8
	owner         types.Address
	reissue, burn bool
	index         uint16
}

// state is what the calls accepted so far come to.
type state struct {
	stakes []*stake
	regs   map[string]*reg
	votes  map[types.Address]string
	toks   map[types.TokenTypeId]*token
}

func genesis() *state {
	g := Genesis(nil)
	s := &state{regs: map[string]*reg{}, votes: map[types.Address]string{}, toks: map[types.TokenTypeId]*token{}}
	for o, l := range g.QuotaInfo.StakeInfoMap {
		a, _ := types.HexToAddress(o)
		for _, x := range l {
			s.stakes = append(s.stakes, &stake{owner: a, benef: *x.Beneficiary, amount: new(big.Int).Set(x.Amount), exp: x.ExpirationHeight})
		}
	}
	for n, r := range g.GovernanceInfo.RegistrationInfoMap[types.SNAPSHOT_GID.String()] {
		s.regs[n] = &reg{n, *r.BlockProducingAddress, *r.StakeAddress, *r.StakeAddress, r.Amount, r.ExpirationHeight}
	}
	for id, t := range g.AssetInfo.TokenInfoMap {
		x, _ := types.HexToTokenTypeId(id)
		s.toks[x] = &token{id: x, name: t.TokenName, sym: t.TokenSymbol, supply: t.TotalSupply, max: t.MaxSupply, dec: t.Decimals, owner: t.Owner, reissue: t.IsReIssuable, burn: t.IsOwnerBurnOnly}
	}
	return s
}

// call is one request a user made, with its effect.
type call struct {
	apply func(s *state, send, recv *ledger.AccountBlock, top uint64) bool // top: height of the snapshot block that confirmed the request
}

type env struct {
	n     *node
	h     *Hist
	calls map[types.Hash]call // by send
}

// at is the state after the blocks keep admits.
func (e *env) at(m *Model, keep func(b *ledger.AccountBlock) bool) *state {
	s := genesis()
	for _, b := range m.Order {
		if !b.IsReceiveBlock() || !keep(b) {
			continue
		}
		if k, ok := e.calls[b.FromBlockHash]; ok {
			if ok := k.apply(s, m.ByHash[b.FromBlockHash], b, m.Conf[b.FromBlockHash]); ok != (len(b.Data) > 32 && b.Data[32] == 0) {
				e.h.C.Fail("call", "the rules accept the call: %v, its receive block %s ends with %x", ok, b.Hash, b.Data)
			}
		}
	}
	return s
}

func (e *env) state() *state { return e.at(e.h.Model(), All) }

func pack(a abi.ABIContract, name string, args ...interface{}) []byte {
	d, err := a.PackMethod(name, args...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}

// op sends a request of user u and has the contract receive it.
func (e *env) op(name string, u int, to types.Address, tok types.TokenTypeId, amount *big.Int, data func(s *state) []byte, apply func(s *state, send, recv *ledger.AccountBlock, top uint64) bool) Op {
	return Op{Name: name, Do: func(h *Hist) bool {
		d := data(e.state())
		if d == nil {
			return false
		}
		b, err := h.W.Send(Users[u], to, tok, amount, d)
		if err != nil {
			return false
		}
		h.Log = append(h.Log, Entry{AB: b})
		e.calls[b.Hash] = call{apply}
		if !e.recv(to) {
			OpSnap().Do(h)
			e.recv(to)
		}
		return true
	}}
}

func (e *env) recv(a types.Address) bool { return OpCRecv(a, "").Do(e.h) }

func (e *env) stakeFor(u, b int) Op {
	amt := vites(134 + int64(b))
	ben := NewAcct(0x60 + byte(b)).Addr
	return e.op(fmt.Sprintf("stake u%d for %d", u, b), u, types.AddressQuota, ledger.ViteTokenId, amt,
		func(*state) []byte { return pack(cabi.ABIQuota, cabi.MethodNameStakeV3, ben) },
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			id := send.Hash
			s.stakes = append(s.stakes, &stake{Users[u].Addr, ben, amt, top + stakeLock, &id})
			return true
		})
}

// cancel takes back part of the oldest genesis stake of user 0.
func (e *env) cancel(b int, amt *big.Int) Op {
	ben := Users[b].Addr
	return e.op(fmt.Sprintf("cancel stake for u%d", b), 0, types.AddressQuota, ledger.ViteTokenId, new(big.Int),
		func(*state) []byte { return pack(cabi.ABIQuota, cabi.MethodNameCancelStakeV2, ben, amt) },
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			for i, x := range s.stakes {
				if x.owner == Users[0].Addr && x.benef == ben && x.id == nil && x.exp <= top {
					left := new(big.Int).Sub(x.amount, amt)
					if left.Sign() != 0 && left.Cmp(vites(134)) < 0 {
						return false
					}
					y := *x
					y.amount = left
					s.stakes[i] = &y
					if left.Sign() == 0 {
						s.stakes = append(append([]*stake{}, s.stakes[:i]...), s.stakes[i+1:]...)
					}
					return true
				}
			}
			return false
		})
}

func (e *env) register(u int, name string, p, w types.Address) Op {
	return e.op(fmt.Sprintf("register %s u%d", name, u), u, types.AddressGovernance, ledger.ViteTokenId, vites(1000000),
		func(*state) []byte { return pack(cabi.ABIGovernance, cabi.MethodNameRegisterV3, name, p, w) },
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			if s.regs[name] != nil {
				return false
			}
			s.regs[name] = &reg{name, p, w, Users[u].Addr, vites(1000000), top + regLock}
			return true
		})
}

func (e *env) reward(u int, name string, w types.Address, tag string) Op {
	return e.op(fmt.Sprintf("reward address of %s: %s", name, tag), u, types.AddressGovernance, ledger.ViteTokenId, new(big.Int),
		func(*state) []byte {
			return pack(cabi.ABIGovernance, cabi.MethodNameUpdateSBPRewardWithdrawAddress, name, w)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			r := s.regs[name]
			if r == nil || r.owner != Users[u].Addr || r.w == w {
				return false
			}
			r.w = w
			return true
		})
}

func (e *env) producing(u int, name string, p types.Address) Op {
	return e.op(fmt.Sprintf("producing address of %s", name), u, types.AddressGovernance, ledger.ViteTokenId, new(big.Int),
		func(*state) []byte {
			return pack(cabi.ABIGovernance, cabi.MethodNameUpdateBlockProducintAddressV3, name, p)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			r := s.regs[name]
			if r == nil || r.owner != Users[u].Addr || r.p == p {
				return false
			}
			r.p = p
			return true
		})
}

func (e *env) vote(u int, name string) Op {
	return e.op(fmt.Sprintf("vote u%d %s", u, name), u, types.AddressGovernance, ledger.ViteTokenId, new(big.Int),
		func(s *state) []byte {
			if s.regs[name] == nil {
				return nil
			}
			return pack(cabi.ABIGovernance, cabi.MethodNameVoteV3, name)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			if s.regs[name] == nil {
				return false
			}
			s.votes[Users[u].Addr] = name
			return true
		})
}

func (e *env) unvote(u int) Op {
	return e.op(fmt.Sprintf("unvote u%d", u), u, types.AddressGovernance, ledger.ViteTokenId, new(big.Int),
		func(s *state) []byte {
			if s.votes[Users[u].Addr] == "" {
				return nil
			}
			return pack(cabi.ABIGovernance, cabi.MethodNameCancelVoteV3)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			delete(s.votes, Users[u].Addr)
			return true
		})
}

func (e *env) issue(u int, name, sym string) Op {
	return e.op(fmt.Sprintf("issue %s u%d", sym, u), u, types.AddressAsset, ledger.ViteTokenId, new(big.Int),
		func(*state) []byte {
			return pack(cabi.ABIAsset, cabi.MethodNameIssueV2, true, name, sym, big.NewInt(1000), uint8(2), big.NewInt(100000), false)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			id := tokenID(recv)
			idx := uint16(0)
			for _, t := range s.toks {
				if t.sym == sym && t.index >= idx {
					idx = t.index + 1
				}
			}
			if s.toks[id] != nil || id == (types.TokenTypeId{}) {
				return false
			}
			s.toks[id] = &token{id: id, name: name, sym: sym, supply: big.NewInt(1000), max: big.NewInt(100000), dec: 2, owner: Users[u].Addr, reissue: true, index: idx}
			return true
		})
}

// tokenID is the token a receive block of the asset contract hands out.
func tokenID(recv *ledger.AccountBlock) types.TokenTypeId {
	for _, x := range recv.SendBlockList {
		return x.TokenId
	}
	return types.TokenTypeId{}
}

// pickTok is the n-th token in order of its identifier, VITE being number 0.
func pickTok(s *state, n int) *token {
	if n == 0 {
		return s.toks[ledger.ViteTokenId]
	}
	var l []*token
	for _, t := range s.toks {
		if t.id != ledger.ViteTokenId {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id.String() < l[j].id.String() })
	if n > len(l) {
		return nil
	}
	return l[n-1]
}

func (e *env) tokOp(what, method string, u, n int, args func(t *token) []interface{}, apply func(t *token) bool) Op {
	return e.op(fmt.Sprintf("%s u%d token %d", what, u, n), u, types.AddressAsset, ledger.ViteTokenId, new(big.Int),
		func(s *state) []byte {
			t := pickTok(s, n)
			if t == nil {
				return nil
			}
			return pack(cabi.ABIAsset, method, args(t)...)
		},
		func(s *state, send, recv *ledger.AccountBlock, top uint64) bool {
			var id types.TokenTypeId
			switch method {
			case cabi.MethodNameReIssueV2:
				p := new(cabi.ParamReIssue)
				cabi.ABIAsset.UnpackMethod(p, method, send.Data)
				id = p.TokenId
			case cabi.MethodNameTransferOwnershipV2:
				p := new(cabi.ParamTransferOwnership)
				cabi.ABIAsset.UnpackMethod(p, method, send.Data)
				id = p.TokenId
			default:
				cabi.ABIAsset.UnpackMethod(&id, method, send.Data)
			}
			t := s.toks[id]
			if t == nil || t.owner != Users[u].Addr || !t.reissue {
				return false
			}
			y := *t
			if !apply(&y) {
				return false
			}
			s.toks[id] = &y
			return true
		})
}

func (e *env) give(u, n, to int) Op {
	return e.tokOp(fmt.Sprintf("give to u%d", to), cabi.MethodNameTransferOwnershipV2, u, n,
		func(t *token) []interface{} { return []interface{}{t.id, Users[to].Addr} },
		func(t *token) bool { t.owner = Users[to].Addr; return true })
}

func (e *env) reissue(u, n int) Op {
	return e.tokOp("reissue", cabi.MethodNameReIssueV2, u, n,
		func(t *token) []interface{} { return []interface{}{t.id, big.NewInt(77), Users[2].Addr} },
		func(t *token) bool {
			t.supply = new(big.Int).Add(t.supply, big.NewInt(77))
			return t.supply.Cmp(t.max) <= 0
		})
}

func (e *env) disable(u, n int) Op {
	return e.tokOp("disable", cabi.MethodNameDisableReIssueV2, u, n,
		func(t *token) []interface{} { return []interface{}{t.id} },
		func(t *token) bool { t.reissue = false; t.max = big.NewInt(0); return true })
}

func (x *stake) json(sb *ledger.SnapshotBlock) obj {
	return obj{"stakeAmount": x.amount.String(), "beneficiary": x.benef, "expirationHeight": ustr(x.exp), "expirationTime": sb.Timestamp.Unix() + int64(x.exp) - int64(sb.Height),
		"isDelegated": false, "delegateAddress": types.Address{}, "stakeAddress": x.owner, "bid": 0, "id": x.id}
}

func (r *reg) json(sb *ledger.SnapshotBlock) obj {
	return obj{"name": r.name, "blockProducingAddress": r.p, "rewardWithdrawAddress": r.w, "stakeAddress": r.owner, "stakeAmount": r.amount.String(),
		"expirationHeight": ustr(r.exp), "expirationTime": sb.Timestamp.Unix() + int64(r.exp) - int64(sb.Height), "revokeTime": 0}
}

func (t *token) json() obj {
	return obj{"tokenName": t.name, "tokenSymbol": t.sym, "totalSupply": t.supply.String(), "decimals": t.dec, "owner": t.owner, "tokenId": t.id, "maxSupply": t.max.String(),
		"ownerBurnOnly": t.burn, "isOwnerBurnOnly": t.burn, "isReIssuable": t.reissue, "index": t.index}
}

// same compares two lists whatever their order.
func (v *view) same(want, got []interface{}, what string) {
	f := func(l []interface{}) []string {
		var r []string
		for _, x := range l {
			r = append(r, text(norm(x)))
		}
		sort.Strings(r)
		return r
	}
	w, g := f(want), f(got)
	if strings.Join(w, "\n") != strings.Join(g, "\n") {
		v.h.C.Fail(strings.Fields(what)[0], "%s: %d items instead of %d:\n%s\ninstead of\n%s", what, len(g), len(w), strings.Join(g, "\n"), strings.Join(w, "\n"))
	}
}

func list(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }

func (v *view) must(method string, args ...interface{}) interface{} {
	got, err := v.n.ask(method, args...)
	if err != nil {
		v.h.C.Fail(method, "%s%s: %v", method, text(args), err)
	}
	return got
}

func people() []types.Address {
	l := []types.Address{Producer.Addr, NewAcct(0x60).Addr, NewAcct(0x61).Addr, NewAcct(0x50).Addr, NewAcct(0x51).Addr, NewAcct(0x52).Addr}
	for _, u := range Users[:4] {
		l = append(l, u.Addr)
	}
	return l
}

func (v *view) quota(e *env, s *state) {
	m := v.m
	top := m.Sbs[len(m.Sbs)-1]
	for _, a := range people() {
		var want []interface{}
		sum := new(big.Int)
		for _, x := range s.stakes {
			if x.owner == a {
				want = append(want, x.json(top))
				sum.Add(sum, x.amount)
			}
		}
		for _, k := range []int{1, 3, 100} {
			var got []interface{}
			for page := 0; ; page++ {
				r, _ := v.must("getStakeList", a, page, k).(obj)
				if d := differ("answer", norm(obj{"totalStakeAmount": sum.String(), "totalStakeCount": len(want)}), r); d != "" {
					v.h.C.Fail("getStakeList", "getStakeList(%s, %d, %d): %s", a, page, k, d)
				}
				l := list(r["stakeList"])
				if n := len(want) - page*k; n > 0 && len(l) != min(n, k) || n <= 0 && len(l) != 0 {
					v.h.C.Fail("getStakeList", "getStakeList(%s, %d, %d): %d items, %d are left", a, page, k, len(l), n)
				}
				got = append(got, l...)
				if page*k > len(want) {
					break
				}
			}
			v.same(want, got, fmt.Sprintf("getStakeList of %s in pages of %d", a, k))
			for i := 1; i < len(got); i++ {
				f := func(x interface{}) uint64 {
					n, _ := strconv.ParseUint(x.(obj)["expirationHeight"].(string), 10, 64)
					return n
				}
				if f(got[i-1]) > f(got[i]) {
					v.h.C.Fail("getStakeList", "getStakeList of %s: item %d expires after item %d", a, i-1, i)
				}
			}
		}
	}
	conf := e.at(m, m.ConfirmedAt(top.Height))
	for _, a := range append(people(), ContractAddr(0)) {
		sum := new(big.Int)
		for _, x := range conf.stakes {
			if x.benef == a {
				sum.Add(sum, x.amount)
			}
		}
		r, _ := v.must("getQuotaByAccount", a).(obj)
		if d := differ("answer", norm(obj{"stakeAmount": sum.String()}), r); d != "" {
			v.h.C.Fail("getQuotaByAccount", "getQuotaByAccount(%s): %s", a, d)
		}
		cur, _ := strconv.ParseUint(fmt.Sprint(r["currentQuota"]), 10, 64)
		max, _ := strconv.ParseUint(fmt.Sprint(r["maxQuota"]), 10, 64)
		if cur > max || (sum.Sign() > 0) != (max > 0) {
			v.h.C.Fail("getQuotaByAccount", "getQuotaByAccount(%s): %s", a, text(r))
		}
	}
	for _, sb := range m.Sbs {
		var want []interface{}
		for _, x := range e.at(m, m.ConfirmedAt(sb.Height)).stakes {
			want = append(want, x.json(top))
		}
		for _, k := range []int{1, 4, 1000} {
			var got []interface{}
			key := ""
			for i := 0; i < 100; i++ {
				r, _ := v.must("getStakeListBySearchKey", sb.Hash, key, k).(obj)
				l := list(r["stakeList"])
				got = append(got, l...)
				key, _ = r["lastSearchKey"].(string)
				if len(l) < k {
					break
				}
			}
			v.same(want, got, fmt.Sprintf("getStakeListBySearchKey at snapshot block %d in pages of %d", sb.Height, k))
		}
	}
}

func (v *view) governance(s *state) {
	m := v.m
	top := m.Sbs[len(m.Sbs)-1]
	for _, a := range people() {
		var want []interface{}
		for _, r := range s.regs {
			if r.owner == a || r.w == a {
				want = append(want, r.json(top))
			}
		}
		v.same(want, list(v.must("getSBPList", a)), fmt.Sprintf("getSBPList of %s", a))
		if n := s.votes[a]; n == "" {
			v.absent("getVotedSBP", a)
		} else {
			v.eq(obj{"blockProducerName": n, "status": 1, "votes": m.Balance(a, ledger.ViteTokenId, All).String()}, "getVotedSBP", a)
		}
	}
	for _, n := range []string{"s1", "aa", "ab", "zz"} {
		if r := s.regs[n]; r != nil {
			v.eq(r.json(top), "getSBP", n)
		} else {
			v.absent("getSBP", n)
		}
	}
}

func (v *view) tokens(s *state) {
	var all []*token
	for _, t := range s.toks {
		all = append(all, t)
		v.eq(t.json(), "getTokenInfoById", t.id)
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].name != all[j].name {
			return all[i].name < all[j].name
		}
		return all[i].id.String() < all[j].id.String()
	})
	v.absent("getTokenInfoById", types.CreateTokenTypeId([]byte("none")))
	for _, k := range []int{1, 2, 1000} {
		for page := 0; page*k <= len(all); page++ {
			l := []interface{}{}
			for i := page * k; i < min(len(all), page*k+k); i++ {
				l = append(l, all[i].json())
			}
			v.eq(obj{"totalCount": len(all), "tokenInfoList": l}, "getTokenInfoList", page, k)
		}
	}
	for _, a := range people() {
		var want []interface{}
		for _, t := range all {
			if t.owner == a {
				want = append(want, t.json())
			}
		}
		v.same(want, list(v.must("getTokenInfoListByOwner", a)), fmt.Sprintf("getTokenInfoListByOwner of %s", a))
	}
}

// contracts checks the deployed scripts: their data, storage and what code run off chain reads of it.
func (v *view) contracts() {
	m := v.m
	for i := 0; i < len(ContractOwners); i++ {
		a := ContractAddr(i)
		made := false
		for _, b := range m.Chains[a] {
			made = made || b.IsReceiveBlock() && m.ByHash[b.FromBlockHash].BlockType == ledger.BlockTypeSendCreate
		}
		if !made {
			v.absent("getContractInfo", a)
			continue
		}
		v.eq(obj{"code": append([]byte{1}, ScriptCode()...), "gid": types.DELEGATE_GID, "confirmTime": i, "responseLatency": i, "seedCount": 0, "randomDegree": 0, "quotaRatio": 10, "quotaMultiplier": 10}, "getContractInfo", a)
		st := m.Storage(a, All)
		for _, prefix := range []string{"", "00", "01", strings.Repeat("00", 31), "ff"} {
			want := obj{}
			for k, x := range st {
				if h := hex.EncodeToString([]byte(k)); strings.HasPrefix(h, prefix) && len(x) > 0 {
					want[h] = hex.EncodeToString(x)
				}
			}
			got, _ := v.must("getContractStorage", a, prefix).(obj)
			if d := differ("answer", norm(want), got); d != "" || len(got) != len(want) {
				v.h.C.Fail("getContractStorage", "getContractStorage(%s, %q): %s instead of %s", a, prefix, text(got), text(want))
			}
		}
		for key := int64(0); key < 8; key++ {
			code := Asm(P(int(key)), 0x54, P(0), 0x52, P(32), P(0), 0xf3)
			x := st[string(Word(key))]
			want := append(make([]byte, 32-len(x)), x...)
			for _, q := range []obj{{"address": a, "code": code, "data": []byte{1}}, {"selfAddr": a, "offchainCode": hex.EncodeToString(code), "data": []byte{1}}} {
				got := v.must("callOffChainMethod", q)
				if got != base64.StdEncoding.EncodeToString(want) {
					v.h.C.Fail("callOffChainMethod", "code reading key %d of %s gives %v, the storage says %x", key, a, got, x)
				}
			}
		}
	}
}

func scen(name string, deploy, depth int, prefix, ops func(e *env) []Op) Scenario {
	l := ops(&env{})
	s := Sequences(name, Options{}, deploy, prefix(&env{}), depth, l, nil)
	s.Body = func(c *C) {
		e := &env{n: &node{}, calls: map[types.Hash]call{}}
		c.Defer(e.n.close)
		e.h = NewHist(c, options(e.n), deploy)
		for _, p := range prefix(e) {
			if !p.Do(e.h) {
				c.Fail("prefix", "prefix step %s is not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		ops := ops(e)
		for i := 0; i <= depth; i++ {
			if i > 0 {
				e.h.Step(ops)
			}
			if c.Fresh() {
				c.State()
				v := &view{e.n, e.h, e.h.Model()}
				s := e.state()
				v.quota(e, s)
				v.governance(s)
				v.tokens(s)
				v.contracts()
			}
		}
	}
	return s
}

func none(*env) []Op { return nil }

func main() {
	Silence()
	p, q := NewAcct(0x50).Addr, NewAcct(0x51).Addr
	third := NewAcct(0x52).Addr
	Main(Suite{Property: "R03", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 3
		if tier == "thorough" {
			d = 5
		}
		return []Scenario{
			scen("stakes", 0, d, func(e *env) []Op { return []Op{e.stakeFor(1, 0)} }, func(e *env) []Op {
				return []Op{e.stakeFor(1, 0), e.stakeFor(1, 1), e.stakeFor(0, 1), e.cancel(3, vites(500)), e.cancel(3, StakeQuota), OpSnap(), OpRollback(1), OpRestart()}
			}),
			scen("producers", 0, d, func(e *env) []Op { return []Op{e.register(1, "aa", p, Users[1].Addr)} }, func(e *env) []Op {
				return []Op{e.register(2, "ab", q, Users[1].Addr), e.reward(1, "aa", third, "third"), e.reward(1, "aa", Users[2].Addr, "u2"), e.reward(1, "aa", Users[1].Addr, "own"), e.reward(2, "ab", third, "third"),
					e.producing(1, "aa", NewAcct(0x53).Addr), e.vote(1, "aa"), e.vote(1, "s1"), e.vote(2, "aa"), e.unvote(1), OpSnap(), OpRollback(1), OpRestart()}
			}),
			scen("tokens", 0, d, func(e *env) []Op { return []Op{e.issue(1, "Coin", "AAA")} }, func(e *env) []Op {
				return []Op{e.issue(1, "Coin", "AAA"), e.issue(2, "A Coin", "BBB"), e.give(1, 1, 2), e.give(2, 1, 1), e.give(0, 0, 1), e.give(1, 0, 0), e.reissue(1, 1), e.disable(1, 1), OpSnap(), OpRollback(1), OpRestart()}
			}),
			scen("contracts", 2, d, none, func(e *env) []Op {
				return []Op{OpCall(0, 0, ModeStore), OpCall(0, 0, ModeTwo), OpCall(0, 0, ModeRevert), OpCall(1, 1, ModeStore), OpCRecv(ContractAddr(0), "c0"), OpCRecv(ContractAddr(1), "c1"), OpSnap(), OpRollback(1), OpRestart()}
			}),
		}
	}})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
