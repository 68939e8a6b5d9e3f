// Property C01: staked tokens are returned in full, only to who staked them, only when due.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

const lock = 600 // blocks, test parameters

var users = []types.Address{vmkit.User(1), vmkit.User(2), vmkit.User(3)}
var min = vmkit.V(134)
var tok2 = types.TokenTypeId{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}

// entry is one stake as its owner understands it.
type entry struct {
	owner, benef, deleg types.Address
	delegated           bool
	bid                 uint8
	amount              *big.Int
	exp                 uint64
	id                  types.Hash // zero: stake of the account/beneficiary pair
}

type model struct {
	list []*entry // in creation order
	ids  map[types.Hash]*entry
	bal  []*big.Int
}

func (m *model) find(owner, benef types.Address, delegated bool, deleg types.Address, bid uint8) *entry {
	for _, e := range m.list {
		if e.owner == owner && e.benef == benef && e.delegated == delegated && e.deleg == deleg && e.bid == bid {
			return e
		}
	}
	return nil
}

func (m *model) drop(e *entry) {
	for i, x := range m.list {
		if x == e {
			m.list = append(m.list[:i:i], m.list[i+1:]...)
			return
		}
	}
}

func (m *model) live(e *entry) bool {
	for _, x := range m.list {
		if x == e {
			return true
		}
	}
	return false
}

type op struct {
	name   string
	who    int // sender
	amount *big.Int
	token  types.TokenTypeId
	data   func(m *model) []byte
	// ok gives whether the request is accepted when made, and whether the contract carries it out
	run func(m *model, w *vmkit.World, send *ledger.AccountBlock) (ok bool, refund *big.Int, callback []byte)
	bad bool // must be refused when made
}

func pack(name string, a ...interface{}) []byte {
	d, err := abi.ABIQuota.PackMethod(name, a...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}
func callback(name string, a ...interface{}) []byte {
	d, err := abi.ABIQuota.PackCallback(name, a...)
	if err != nil {
		panic(err)
	}
	return d
}

func ids(m *model) []types.Hash {
	var l []types.Hash
	for h := range m.ids {
		l = append(l, h)
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i][:], l[j][:]) < 0 })
	return l
}

var zero types.Address

func stakePair(name string, who, benef int, amt *big.Int) op {
	return op{name: fmt.Sprintf("%s u%d for u%d %v", name, who, benef, amt), who: who, amount: amt, token: vmkit.Vite,
		data: func(*model) []byte { return pack(name, users[benef]) },
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			e := m.find(users[who], users[benef], false, zero, 0)
			if e == nil {
				e = &entry{owner: users[who], benef: users[benef], amount: new(big.Int)}
				m.list = append(m.list, e)
			}
			e.amount = new(big.Int).Add(e.amount, amt)
			e.exp = w.SB().Height + lock
			e.id = types.Hash{}
			return true, nil, nil
		}}
}

func cancelPair(name string, who, benef int, amt *big.Int) op {
	return op{name: fmt.Sprintf("%s u%d for u%d %v", name, who, benef, amt), who: who, amount: new(big.Int), token: vmkit.Vite,
		data: func(*model) []byte { return pack(name, users[benef], amt) },
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			e := m.find(users[who], users[benef], false, zero, 0)
			if e == nil || !e.id.IsZero() || e.exp > w.SB().Height || e.amount.Cmp(amt) < 0 {
				return false, nil, nil
			}
			left := new(big.Int).Sub(e.amount, amt)
			if left.Sign() != 0 && left.Cmp(min) < 0 {
				return false, nil, nil
			}
			e.amount = left
			if left.Sign() == 0 {
				m.drop(e)
			}
			return true, amt, nil
		}}
}

func stakeID(name string, who, benef int, amt *big.Int, height uint64) op {
	cb := name == "StakeForQuotaWithCallback"
	return op{name: fmt.Sprintf("%s u%d for u%d %v height %d", name, who, benef, amt, height), who: who, amount: amt, token: vmkit.Vite,
		data: func(*model) []byte {
			if cb {
				return pack(name, users[benef], height)
			}
			return pack(name, users[benef])
		},
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			h := uint64(lock)
			if cb {
				h = height
			}
			e := &entry{owner: users[who], benef: users[benef], amount: new(big.Int).Set(amt), exp: w.SB().Height + h, id: s.Hash}
			m.list = append(m.list, e)
			m.ids[s.Hash] = e
			if cb {
				return true, new(big.Int), callback(name, s.Hash, true)
			}
			return true, nil, nil
		}}
}

func cancelID(name string, who, n int) op {
	cb := name == "CancelQuotaStakingWithCallback"
	pick := func(m *model) types.Hash {
		l := ids(m)
		if n < len(l) {
			return l[n]
		}
		return types.Hash{9}
	}
	return op{name: fmt.Sprintf("%s u%d #%d", name, who, n), who: who, amount: new(big.Int), token: vmkit.Vite,
		data: func(m *model) []byte { return pack(name, pick(m)) },
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			id := pick(m)
			e := m.ids[id]
			if e == nil || !m.live(e) || e.owner != users[who] || e.exp > w.SB().Height {
				if cb {
					return false, new(big.Int), callback(name, id, false)
				}
				return false, nil, nil
			}
			delete(m.ids, id)
			m.drop(e)
			if cb {
				return true, e.amount, callback(name, id, true)
			}
			return true, e.amount, nil
		}}
}

func delegate(name string, who, owner, benef int, bid uint8, amt *big.Int, height uint64) op {
	return op{name: fmt.Sprintf("%s u%d of u%d for u%d bid %d %v height %d", name, who, owner, benef, bid, amt, height), who: who, amount: amt, token: vmkit.Vite,
		data: func(*model) []byte { return pack(name, users[owner], users[benef], bid, height) },
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			e := m.find(users[owner], users[benef], true, users[who], bid)
			if e == nil {
				e = &entry{owner: users[owner], benef: users[benef], delegated: true, deleg: users[who], bid: bid, amount: new(big.Int)}
				m.list = append(m.list, e)
			}
			e.amount = new(big.Int).Add(e.amount, amt)
			if x := w.SB().Height + height; x > e.exp {
				e.exp = x
			}
			return true, new(big.Int), callback(name, users[owner], users[benef], amt, bid, true)
		}}
}

func cancelDelegate(name string, who, owner, benef int, bid uint8, amt *big.Int) op {
	return op{name: fmt.Sprintf("%s u%d of u%d for u%d bid %d %v", name, who, owner, benef, bid, amt), who: who, amount: new(big.Int), token: vmkit.Vite,
		data: func(*model) []byte { return pack(name, users[owner], users[benef], amt, bid) },
		run: func(m *model, w *vmkit.World, s *ledger.AccountBlock) (bool, *big.Int, []byte) {
			e := m.find(users[owner], users[benef], true, users[who], bid)
			left := new(big.Int)
			if e != nil {
				left.Sub(e.amount, amt)
			}
			if e == nil || e.exp > w.SB().Height || left.Sign() < 0 || left.Sign() > 0 && left.Cmp(min) < 0 {
				return false, new(big.Int), callback(name, users[owner], users[benef], amt, bid, false)
			}
			e.amount = left
			if left.Sign() == 0 {
				m.drop(e)
			}
			return true, amt, callback(name, users[owner], users[benef], amt, bid, true)
		}}
}

func world() (*vmkit.World, *model) {
	vmkit.Init(nil)
	w := vmkit.New()
	m := &model{ids: map[types.Hash]*entry{}}
	for _, u := range users {
		w.SetBal(u, vmkit.Vite, vmkit.V(2000))
		w.SetBal(u, tok2, vmkit.V(2000))
		m.bal = append(m.bal, vmkit.V(2000))
	}
	return w, m
}

func check(c *C, w *vmkit.World, m *model) {
	c.State()
	db := w.DB(types.AddressQuota)
	total := new(big.Int)
	ben := map[types.Address]*big.Int{}
	own := map[types.Address]*big.Int{}
	var want []string
	show := func(owner types.Address, e *types.StakeInfo) string {
		id := "-"
		if e.Id != nil {
			id = fmt.Sprintf("%x", e.Id[:])
		}
		return fmt.Sprintf("%x for %x delegated %v by %x bid %d amount %v until %d id %s", owner[:3], e.Beneficiary[:3], e.IsDelegated, e.DelegateAddress[:3], e.Bid, e.Amount, e.ExpirationHeight, id)
	}
	for _, u := range users {
		ben[u], own[u] = new(big.Int), new(big.Int)
	}
	count := map[types.Address]int{}
	for _, e := range m.list {
		total.Add(total, e.amount)
		ben[e.benef].Add(ben[e.benef], e.amount)
		if !e.delegated {
			own[e.owner].Add(own[e.owner], e.amount)
			count[e.owner]++
		}
		s := &types.StakeInfo{Amount: e.amount, ExpirationHeight: e.exp, Beneficiary: e.benef, IsDelegated: e.delegated, DelegateAddress: e.deleg, Bid: e.bid}
		if !e.id.IsZero() {
			id := e.id
			s.Id = &id
		}
		want = append(want, show(e.owner, s))
	}
	sort.Strings(want)
	if b := w.Bal(types.AddressQuota, vmkit.Vite); b.Cmp(total) != 0 {
		c.Fail("C01/held", "the contract holds %v, stakes sum to %v", b, total)
	}
	for i, u := range users {
		if w.Bal(u, vmkit.Vite).Cmp(m.bal[i]) != 0 {
			c.Fail("C01/balance", "u%d has %v, expected %v", i, w.Bal(u, vmkit.Vite), m.bal[i])
		}
		if a, err := abi.GetStakeBeneficialAmount(db, u); err != nil || a.Cmp(ben[u]) != 0 {
			c.Fail("C01/beneficial", "u%d benefits from %v (%v), expected %v", i, a, err, ben[u])
		}
		l, a, err := abi.GetStakeInfoList(db, u)
		if err != nil || a.Cmp(own[u]) != 0 || len(l) != count[u] {
			c.Fail("C01/list", "u%d: %d stakes of %v (%v), expected %d of %v", i, len(l), a, err, count[u], own[u])
		}
	}
	for _, page := range []uint64{1, 2, 100} {
		var got []string
		var last []byte
		for n := 0; n < 50; n++ {
			l, k, err := abi.GetStakeListByPage(db, last, page)
			if err != nil {
				c.Fail("C01/page", "%v", err)
			}
			for _, e := range l {
				got = append(got, show(e.StakeAddress, e))
			}
			if len(l) == 0 || k == nil {
				break
			}
			last = k
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail("C01/stakes", "stakes (page size %d)\n got %v\nwant %v", page, got, want)
		}
	}
	for id, e := range m.ids {
		x, err := abi.GetStakeInfoById(db, id.Bytes())
		if m.live(e) && (err != nil || x == nil || x.Amount.Cmp(e.amount) != 0) {
			c.Fail("C01/by-id", "stake %v by id: %v %v", id, x, err)
		}
		if !m.live(e) && err == nil {
			c.Fail("C01/by-id", "stake %v is gone but found by id: %v", id, x)
		}
	}
}

func apply(c *C, w *vmkit.World, m *model, o op) {
	c.Op("%s", o.name)
	before := fmt.Sprint(w.StorageOf(types.AddressQuota))
	data := o.data(m)
	k := w.Call(users[o.who], types.AddressQuota, o.token, o.amount, data)
	if k.Bad != "" {
		c.Fail("C01/broken", "%s: %s", o.name, k.Bad)
	}
	if o.bad || k.SendErr != nil {
		if k.SendErr == nil {
			c.Fail("C01/accepted", "%s was accepted", o.name)
		}
		if !o.bad {
			c.Fail("C01/refused", "%s was refused: %v", o.name, k.SendErr)
		}
		if fmt.Sprint(w.StorageOf(types.AddressQuota)) != before {
			c.Fail("C01/refused-effect", "%s was refused but had an effect", o.name)
		}
		return
	}
	ok, refund, cb := o.run(m, w, k.Send)
	if k.OK != ok {
		c.Fail("C01/outcome", "%s succeeded=%v, expected %v (%v)", o.name, k.OK, ok, k.Recv.Err)
	}
	if !ok && fmt.Sprint(w.StorageOf(types.AddressQuota)) != before {
		c.Fail("C01/failed-effect", "%s failed but had an effect", o.name)
	}
	m.bal[o.who] = new(big.Int).Sub(m.bal[o.who], o.amount)
	back := new(big.Int)
	if refund != nil {
		back.Add(back, refund)
	}
	if !ok {
		back.Add(back, o.amount)
	}
	m.bal[o.who] = new(big.Int).Add(m.bal[o.who], back)
	if back.Sign() > 0 || cb != nil {
		if len(k.Out) != 1 || k.Out[0].ToAddress != users[o.who] || k.Out[0].TokenId != vmkit.Vite || k.Out[0].Amount.Cmp(back) != 0 || !bytes.Equal(k.Out[0].Data, cb) {
			c.Fail("C01/paid", "%s: expected %v to be paid back with %x, got %v", o.name, back, cb, k.Out)
		}
	} else if len(k.Out) != 0 {
		c.Fail("C01/paid", "%s: unexpected payment %v", o.name, k.Out[0])
	}
	if s := w.MustSettle(); s != "" {
		c.Fail("C01/settle", "%s", s)
	}
}

func history(name string, depth int, ops []op, waits []int) Scenario {
	return Scenario{Name: name, Bound: fmt.Sprintf("every sequence of %d requests and waits out of %d", depth, len(ops)+len(waits)), Body: func(c *C) {
		w, m := world()
		for i := 0; i < depth; i++ {
			x := c.Choose(len(ops) + len(waits))
			if x >= len(ops) {
				c.Op("wait %d", waits[x-len(ops)])
				w.Snapshot(waits[x-len(ops)])
				continue
			}
			apply(c, w, m, ops[x])
			w.Snapshot(1)
			if c.Fresh() {
				check(c, w, m)
			}
		}
		check(c, w, m)
	}}
}

func main() {
	Main(Suite{Property: "C01", Scenarios: func(tier string) []Scenario {
		d := 0
		if tier == "thorough" {
			d = 1
		}
		a, b := vmkit.V(134), vmkit.V(200)
		sum := vmkit.V(334)
		return []Scenario{
			history("pair", 5+d, []op{
				stakePair("Stake", 0, 0, a), stakePair("Stake", 0, 1, b), stakePair("Pledge", 1, 1, a),
				cancelPair("CancelStake", 0, 0, a), cancelPair("CancelPledge", 0, 1, a), cancelPair("CancelStake", 0, 1, b), cancelPair("CancelStake", 1, 1, sum),
			}, []int{lock - 2, lock}),
			history("by-id", 5+d, []op{
				stakeID("StakeForQuota", 0, 0, a, 0), stakeID("StakeForQuota", 1, 0, b, 0), stakeID("StakeForQuotaWithCallback", 0, 1, a, lock+1),
				cancelID("CancelQuotaStaking", 0, 0), cancelID("CancelQuotaStaking", 0, 1), cancelID("CancelQuotaStakingWithCallback", 1, 0), cancelID("CancelQuotaStakingWithCallback", 0, 1),
			}, []int{lock - 1, lock}),
			history("mixed", 5+d, []op{
				stakePair("Stake", 0, 0, a), stakeID("StakeForQuota", 0, 0, b, 0),
				cancelPair("CancelStake", 0, 0, a), cancelPair("CancelStake", 0, 0, b), cancelID("CancelQuotaStaking", 0, 0), cancelID("CancelQuotaStaking", 0, 1), cancelID("CancelQuotaStaking", 1, 0),
			}, []int{lock}),
			history("delegated", 5+d, []op{
				delegate("DelegateStake", 2, 0, 0, 1, a, lock), delegate("AgentPledge", 2, 0, 1, 1, b, lock+2), delegate("DelegateStake", 1, 0, 0, 2, a, lock), stakePair("Stake", 0, 0, a),
				cancelDelegate("CancelDelegateStake", 2, 0, 0, 1, a), cancelDelegate("AgentCancelPledge", 2, 0, 1, 1, a), cancelDelegate("CancelDelegateStake", 1, 0, 0, 2, a), cancelPair("CancelStake", 0, 0, a),
			}, []int{lock - 1, lock}),
			{Name: "bad-requests", Bound: "every method with every malformed amount, token, height and data", Body: func(c *C) {
				w, m := world()
				for _, o := range []op{stakePair("Stake", 0, 0, b), stakeID("StakeForQuota", 0, 1, b, 0), delegate("DelegateStake", 2, 0, 0, 1, b, lock)} {
					apply(c, w, m, o)
				}
				w.Snapshot(lock)
				few := new(big.Int).Sub(a, big.NewInt(1))
				one := big.NewInt(1)
				mod := func(o op, f func(o *op)) op { o.bad = true; f(&o); o.name += " (malformed)"; return o }
				var l []op
				stakes := []op{stakePair("Pledge", 0, 0, a), stakePair("Stake", 0, 0, a), stakeID("StakeForQuota", 0, 0, a, 0), stakeID("StakeForQuotaWithCallback", 0, 0, a, lock), delegate("AgentPledge", 2, 0, 0, 1, a, lock), delegate("DelegateStake", 2, 0, 0, 1, a, lock)}
				cancels := []op{cancelPair("CancelPledge", 0, 0, a), cancelPair("CancelStake", 0, 0, b), cancelID("CancelQuotaStaking", 0, 0), cancelID("CancelQuotaStakingWithCallback", 0, 0), cancelDelegate("AgentCancelPledge", 2, 0, 0, 1, b), cancelDelegate("CancelDelegateStake", 2, 0, 0, 1, b)}
				for _, o := range stakes {
					l = append(l, o)
					for _, v := range []*big.Int{few, one, new(big.Int), vmkit.V(2001)} {
						v := v
						l = append(l, mod(o, func(o *op) { o.amount = v }))
					}
					l = append(l, mod(o, func(o *op) { o.token = tok2 }))
				}
				for _, o := range cancels {
					l = append(l, o, mod(o, func(o *op) { o.amount = one }))
				}
				for _, v := range []*big.Int{few, one, new(big.Int)} {
					l = append(l, mod(cancelPair("CancelStake", 0, 0, v), func(*op) {}), mod(cancelDelegate("CancelDelegateStake", 2, 0, 0, 1, v), func(*op) {}))
				}
				for _, h := range []uint64{0, 1, lock - 1, 3600*24*365 + 1, 1 << 63, 1<<64 - 1} {
					l = append(l, mod(stakeID("StakeForQuotaWithCallback", 0, 0, a, h), func(*op) {}), mod(delegate("DelegateStake", 2, 0, 0, 1, a, h), func(*op) {}))
				}
				l = append(l, stakeID("StakeForQuotaWithCallback", 0, 0, a, 3600*24*365), delegate("DelegateStake", 2, 0, 0, 1, a, 3600*24*365))
				// someone else's stake, a wrong bid, a wrong beneficiary, too much, a remainder below the minimum
				l = append(l, cancelPair("CancelStake", 1, 0, b), cancelPair("CancelStake", 0, 1, b), cancelPair("CancelStake", 0, 0, vmkit.V(201)), cancelPair("CancelStake", 0, 0, vmkit.V(134)),
					cancelID("CancelQuotaStaking", 1, 0), cancelID("CancelQuotaStakingWithCallback", 2, 0), cancelID("CancelQuotaStaking", 0, 5),
					cancelDelegate("CancelDelegateStake", 0, 0, 0, 1, b), cancelDelegate("CancelDelegateStake", 2, 0, 0, 2, b), cancelDelegate("CancelDelegateStake", 2, 0, 1, 1, b), cancelDelegate("CancelDelegateStake", 2, 1, 0, 1, b), cancelDelegate("CancelDelegateStake", 2, 0, 0, 1, a))
				for _, o := range append(append([]op{}, stakes...), cancels...) {
					o := o
					for _, cut := range []int{4, 5, 20, 35} {
						cut := cut
						l = append(l, mod(o, func(x *op) { x.data = func(m *model) []byte { return o.data(m)[:cut] } }))
					}
					l = append(l, mod(o, func(x *op) {
						x.data = func(m *model) []byte { d := append([]byte{}, o.data(m)...); d[0] ^= 0xff; return d }
					}))
				}
				o := l[c.Choose(len(l))]
				apply(c, w, m, o)
				check(c, w, m)
				o = l[c.Choose(len(l))]
				apply(c, w, m, o)
				check(c, w, m)
			}},
		}
	}, Assumptions: []string{"all network upgrades active, test parameters (lock of 600 snapshot blocks)", "requests are handled in the order they are made"}})
}
