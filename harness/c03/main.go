// Property C03: block producer registrations, votes and rewards follow the governance rules.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

const lock = 3
const day = 86400

var users = []types.Address{vmkit.User(1), vmkit.User(2), vmkit.User(3), vmkit.User(4)}
var prod = []types.Address{vmkit.User(11), vmkit.User(12)}
var price = vmkit.V(1000000)
var perBlock = vmkit.Big("951293759512937595")
var names = []string{"x", "xy", "y"}

type stat struct{ genesis time.Time }

func numbers(index uint64, name string) (num, exp uint64, votes *big.Int) {
	k := index*3 + uint64(len(name))*5 + uint64(name[0])
	exp = []uint64{0, 10, 24, 24, 7}[k%5]
	num = exp
	if exp > 0 {
		num = exp - k%3
	}
	votes = new(big.Int).Mul(vmkit.V(int64(k%7)*350001), big.NewInt(1))
	return
}

func (s *stat) DayStats(a, b uint64) ([]*core.DayStats, error) {
	var l []*core.DayStats
	for i := a; i <= b; i++ {
		d := &core.DayStats{Index: i, Stats: map[string]*core.SbpStats{}, VoteSum: &core.BigInt{Int: new(big.Int)}}
		for _, n := range append([]string{"other"}, names[:1+i%3]...) {
			num, exp, v := numbers(i, n)
			d.Stats[n] = &core.SbpStats{Index: i, BlockNum: num, ExceptedBlockNum: exp, VoteCnt: &core.BigInt{Int: v}, Name: n}
			d.VoteSum.Add(d.VoteSum.Int, v)
			d.BlockTotal += num
		}
		l = append(l, d)
	}
	return l, nil
}
func (s *stat) GetDayTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(s.genesis, 24*time.Hour)
}

// dayReward is the published formula for one producer and day.
func dayReward(i uint64, name string) *big.Int {
	var self *core.SbpStats
	l, _ := (&stat{}).DayStats(i, i)
	d := l[0]
	self = d.Stats[name]
	if self == nil || self.ExceptedBlockNum == 0 {
		return new(big.Int)
	}
	stake := price
	if i == 0 { // the day the mainnet rules started still counts the old stake
		stake = vmkit.V(500000)
	}
	n := new(big.Int).Add(self.VoteCnt.Int, stake)
	for _, x := range []*big.Int{new(big.Int).SetUint64(d.BlockTotal), new(big.Int).SetUint64(self.BlockNum), perBlock} {
		n.Mul(n, x)
	}
	q := new(big.Int).Mul(big.NewInt(int64(len(d.Stats))), stake)
	q.Add(q, d.VoteSum.Int)
	q.Mul(q, new(big.Int).SetUint64(self.ExceptedBlockNum))
	q.Mul(q, big.NewInt(2))
	n.Quo(n, q)
	h := new(big.Int).Mul(perBlock, new(big.Int).SetUint64(self.BlockNum))
	h.Quo(h, big.NewInt(2))
	return n.Add(n, h)
}

type reg struct {
	name     string
	p, w     types.Address
	owner    int
	amount   *big.Int
	exp      uint64
	rew, rev int64
	his      []types.Address
}

type model struct {
	genesis int64
	regs    map[string]*reg
	his     map[types.Address]string
	votes   map[types.Address]string
	vite    map[types.Address]*big.Int
	paid    map[string]bool
	issued  *big.Int
}

func pack(name string, a ...interface{}) []byte {
	d, err := abi.ABIGovernance.PackMethod(name, a...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}

func world() (*vmkit.World, *model) {
	vmkit.Init(nil)
	w := vmkit.New()
	g := w.SBs[0].Timestamp
	w.Reader = util.NewVMConsensusReader(&stat{*g})
	sp, err := abi.ABIGovernance.PackVariable(abi.VariableNameRegisterStakeParam, vmkit.V(1), vmkit.Vite, uint64(lock))
	if err != nil {
		panic(err)
	}
	gi, err := abi.ABIGovernance.PackVariable(abi.VariableNameConsensusGroupInfo, uint8(25), int64(1), int64(3), uint8(2), uint8(100), uint16(1), uint8(0), vmkit.Vite, uint8(1), sp, uint8(1), []byte{}, users[0], big.NewInt(0), uint64(1))
	if err != nil {
		panic(err)
	}
	w.Mut(types.AddressGovernance).Stor[string(abi.GetConsensusGroupInfoKey(types.SNAPSHOT_GID))] = gi
	ti, err := abi.ABIAsset.PackVariable(abi.VariableNameTokenInfo, "Vite Token", "VITE", vmkit.V(1000000000), uint8(18), types.AddressGovernance, true, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), false, uint16(0))
	if err != nil {
		panic(err)
	}
	w.Mut(types.AddressAsset).Stor[string(abi.GetTokenInfoKey(vmkit.Vite))] = ti
	m := &model{genesis: g.Unix(), regs: map[string]*reg{}, his: map[types.Address]string{}, votes: map[types.Address]string{}, vite: map[types.Address]*big.Int{}, paid: map[string]bool{}, issued: new(big.Int)}
	for _, u := range users {
		w.SetBal(u, vmkit.Vite, vmkit.V(5000000))
		m.vite[u] = vmkit.V(5000000)
	}
	return w, m
}

// due computes what a registration may withdraw now.
func (m *model) due(r *reg, now int64) (end int64, days []uint64, sum *big.Int, drained bool) {
	sum = new(big.Int)
	if r.rew < 0 {
		return 0, nil, sum, true
	}
	var start int64
	if r.rew > m.genesis {
		start = (r.rew - m.genesis + day - 1) / day
	}
	full := func(t int64) int64 { // number of complete days before t
		if t < m.genesis {
			return 0
		}
		return (t - m.genesis) / day
	}
	lim := now - 3600
	n := full(lim)
	if r.rev != 0 {
		if x := full(r.rev); m.genesis+x*day <= lim {
			n, drained = x, true
		}
	}
	for i := start; i < n; i++ {
		days = append(days, uint64(i))
		sum.Add(sum, dayReward(uint64(i), r.name))
	}
	return m.genesis + n*day, days, sum, drained
}

func (m *model) call(c *C, w *vmkit.World, name string, who int, amt *big.Int, data []byte, sendOK, ok bool, pay *big.Int, reissue *big.Int, to types.Address, apply func()) {
	c.Op("%s", name)
	before := fmt.Sprint(w.StorageOf(types.AddressGovernance))
	k := w.Call(users[who], types.AddressGovernance, vmkit.Vite, amt, data)
	if k.Bad != "" {
		c.Fail("C03/broken", "%s: %s", name, k.Bad)
	}
	if (k.SendErr == nil) != sendOK {
		c.Fail("C03/accepted", "%s: accepted=%v, expected %v (%v)", name, k.SendErr == nil, sendOK, k.SendErr)
	}
	if !sendOK {
		return
	}
	if k.OK != ok {
		c.Fail("C03/outcome", "%s succeeded=%v, expected %v (%v)", name, k.OK, ok, k.Recv.Err)
	}
	if !ok && fmt.Sprint(w.StorageOf(types.AddressGovernance)) != before {
		c.Fail("C03/failed-effect", "%s failed but had an effect", name)
	}
	u := users[who]
	if ok {
		apply()
		m.vite[u] = new(big.Int).Sub(m.vite[u], amt)
		if pay != nil {
			m.vite[u] = new(big.Int).Add(m.vite[u], pay)
		}
		if reissue != nil {
			m.vite[to] = new(big.Int).Add(m.vite[to], reissue)
			m.issued = new(big.Int).Add(m.issued, reissue)
		}
	}
	if s := w.MustSettle(); s != "" {
		c.Fail("C03/settle", "%s: %s", name, s)
	}
}

func (m *model) register(c *C, w *vmkit.World, v3 bool, who int, name string, p int, wd int, amt *big.Int) {
	now := w.SB().Timestamp.Unix()
	old := m.regs[name]
	ok := amt.Cmp(price) == 0
	if old != nil {
		_, _, sum, drained := m.due(old, now)
		ok = ok && old.rev != 0 && old.owner == who && drained && sum.Sign() == 0
	}
	if h, used := m.his[prod[p]]; used && h != name {
		ok = false
	}
	wa := users[who]
	data := pack("Register", types.SNAPSHOT_GID, name, prod[p])
	if v3 {
		wa = users[wd]
		data = pack("RegisterSBP", name, prod[p], wa)
	}
	m.call(c, w, fmt.Sprintf("register u%d %s p%d withdraw %x amount %v", who, name, p, wa[:2], amt), who, amt, data, true, ok, nil, nil, types.Address{}, func() {
		r := &reg{name: name, p: prod[p], w: wa, owner: who, amount: amt, exp: w.SB().Height + lock, rew: now}
		if old != nil {
			r.his = old.his
		}
		if _, used := m.his[prod[p]]; !used {
			r.his = append(append([]types.Address{}, r.his...), prod[p])
			m.his[prod[p]] = name
		}
		m.regs[name] = r
	})
}

func (m *model) produce(c *C, w *vmkit.World, method string, who int, name string, p int) {
	r := m.regs[name]
	ok := r != nil && r.rev == 0 && r.owner == who && r.p != prod[p]
	if h, used := m.his[prod[p]]; used && h != name {
		ok = false
	}
	data := pack("UpdateSBPBlockProducingAddress", name, prod[p])
	if method != "" {
		data = pack(method, types.SNAPSHOT_GID, name, prod[p])
	}
	m.call(c, w, fmt.Sprintf("produce u%d %s p%d", who, name, p), who, new(big.Int), data, true, ok, nil, nil, types.Address{}, func() {
		r.p = prod[p]
		if _, used := m.his[prod[p]]; !used {
			r.his = append(append([]types.Address{}, r.his...), prod[p])
			m.his[prod[p]] = name
		}
	})
}

func (m *model) withdrawAddr(c *C, w *vmkit.World, who int, name string, wd int) {
	r := m.regs[name]
	ok := r != nil && r.rev == 0 && r.owner == who && r.w != users[wd]
	m.call(c, w, fmt.Sprintf("withdraw address u%d %s u%d", who, name, wd), who, new(big.Int), pack("UpdateSBPRewardWithdrawAddress", name, users[wd]), true, ok, nil, nil, types.Address{}, func() { r.w = users[wd] })
}

func (m *model) revoke(c *C, w *vmkit.World, method string, who int, name string) {
	r := m.regs[name]
	ok := r != nil && r.rev == 0 && r.owner == who && r.exp <= w.SB().Height
	var pay *big.Int
	if ok {
		pay = r.amount
	}
	data := pack("RevokeSBP", name)
	if method != "" {
		data = pack(method, types.SNAPSHOT_GID, name)
	}
	m.call(c, w, fmt.Sprintf("revoke u%d %s", who, name), who, new(big.Int), data, true, ok, pay, nil, types.Address{}, func() {
		r.amount, r.exp, r.rev = new(big.Int), 0, w.SB().Timestamp.Unix()
	})
}

func (m *model) withdraw(c *C, w *vmkit.World, method string, who int, name string, to int) {
	r := m.regs[name]
	ok := r != nil && r.rew != -1 && (r.owner == who || r.w == users[who])
	var sum *big.Int
	var end int64
	var days []uint64
	if ok {
		var drained bool
		end, days, sum, drained = m.due(r, w.SB().Timestamp.Unix())
		if drained {
			end = -1
		}
	}
	data := pack("WithdrawSBPReward", name, users[to])
	if method != "" {
		data = pack(method, types.SNAPSHOT_GID, name, users[to])
	}
	m.call(c, w, fmt.Sprintf("withdraw u%d %s to u%d", who, name, to), who, new(big.Int), data, true, ok, nil, sum, users[to], func() {
		r.rew = end
		for _, d := range days {
			k := fmt.Sprintf("%s %d", name, d)
			if m.paid[k] {
				c.Fail("C03/twice", "the reward of %s for day %d is paid twice", name, d)
			}
			m.paid[k] = true
		}
	})
}

func (m *model) vote(c *C, w *vmkit.World, v3 bool, who int, name string) {
	r := m.regs[name]
	ok := r != nil && r.rev == 0
	data := pack("Vote", types.SNAPSHOT_GID, name)
	if v3 {
		data = pack("VoteForSBP", name)
	}
	m.call(c, w, fmt.Sprintf("vote u%d %s", who, name), who, new(big.Int), data, true, ok, nil, nil, types.Address{}, func() { m.votes[users[who]] = name })
}

func (m *model) unvote(c *C, w *vmkit.World, v3 bool, who int) {
	data := pack("CancelVote", types.SNAPSHOT_GID)
	if v3 {
		data = pack("CancelSBPVoting")
	}
	m.call(c, w, fmt.Sprintf("unvote u%d", who), who, new(big.Int), data, true, true, nil, nil, types.Address{}, func() { delete(m.votes, users[who]) })
}

func showR(r *types.Registration) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("%s p %x w %x owner %x amount %v exp %d reward %d revoked %d his %x", r.Name, r.BlockProducingAddress[:3], r.RewardWithdrawAddress[:3], r.StakeAddress[:3], r.Amount, r.ExpirationHeight, r.RewardTime, r.RevokeTime, r.HisAddrList)
}
func (r *reg) show() string {
	return fmt.Sprintf("%s p %x w %x owner %x amount %v exp %d reward %d revoked %d his %x", r.name, r.p[:3], r.w[:3], users[r.owner][:3], r.amount, r.exp, r.rew, r.rev, r.his)
}
func showRs(l []*types.Registration) string {
	var s []string
	for _, r := range l {
		s = append(s, showR(r))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func check(c *C, w *vmkit.World, m *model) {
	c.State()
	db := w.DB(types.AddressGovernance)
	pick := func(f func(r *reg) bool) string {
		var s []string
		for _, r := range m.regs {
			if f(r) {
				s = append(s, r.show())
			}
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	same := func(what, got string, err error, want string) {
		if err != nil || got != want {
			c.Fail("C03/"+what, "%s\n got %s (%v)\nwant %s", what, got, err, want)
		}
	}
	held := new(big.Int)
	for _, n := range names {
		r, err := abi.GetRegistration(db, types.SNAPSHOT_GID, n)
		want := "nil"
		active := false
		if x := m.regs[n]; x != nil {
			want = x.show()
			active = x.rev == 0
			held.Add(held, x.amount)
		}
		same("registration", showR(r), err, want)
		a, err := abi.IsActiveRegistration(db, n, types.SNAPSHOT_GID)
		same("active", fmt.Sprint(a), err, fmt.Sprint(active))
	}
	if b := w.Bal(types.AddressGovernance, vmkit.Vite); b.Cmp(held) != 0 {
		c.Fail("C03/held", "the contract holds %v, registrations sum to %v", b, held)
	}
	l, err := abi.GetAllRegistrationList(db, types.SNAPSHOT_GID)
	same("all-registrations", showRs(l), err, pick(func(*reg) bool { return true }))
	l, err = abi.GetCandidateList(db, types.SNAPSHOT_GID)
	same("candidates", showRs(l), err, pick(func(r *reg) bool { return r.rev == 0 }))
	for i, u := range users {
		l, err = abi.GetRegistrationList(db, types.SNAPSHOT_GID, u)
		same("owned", showRs(l), err, pick(func(r *reg) bool { return r.owner == i }))
		l, err = abi.GetRegistrationListByRewardWithdrawAddr(db, types.SNAPSHOT_GID, u)
		same("by-withdraw-address", showRs(l), err, pick(func(r *reg) bool { return r.w == u && r.owner != i }))
		v, err := abi.GetVote(db, types.SNAPSHOT_GID, u)
		got := ""
		if v != nil {
			got = v.SbpName
		}
		same("vote", got, err, m.votes[u])
		if w.Bal(u, vmkit.Vite).Cmp(m.vite[u]) != 0 {
			c.Fail("C03/balance", "u%d has %v, expected %v", i, w.Bal(u, vmkit.Vite), m.vite[u])
		}
	}
	vl, err := abi.GetVoteList(db, types.SNAPSHOT_GID)
	var got, want []string
	for _, v := range vl {
		got = append(got, fmt.Sprintf("%x %s", v.VoteAddr[:], v.SbpName))
	}
	for u, n := range m.votes {
		want = append(want, fmt.Sprintf("%x %s", u[:], n))
	}
	sort.Strings(got)
	sort.Strings(want)
	same("votes", fmt.Sprint(got), err, fmt.Sprint(want))
	ti, err := abi.GetTokenByID(w.DB(types.AddressAsset), vmkit.Vite)
	if err != nil || ti.TotalSupply.Cmp(new(big.Int).Add(vmkit.V(1000000000), m.issued)) != 0 {
		c.Fail("C03/supply", "the VITE supply is %v, rewards paid %v", ti.TotalSupply, m.issued)
	}
	if t := new(big.Int).Add(vmkit.V(20000000), m.issued); w.Total(vmkit.Vite).Cmp(t) != 0 {
		c.Fail("C03/total", "%v VITE exist, expected %v", w.Total(vmkit.Vite), t)
	}
}

func wait(c *C, w *vmkit.World, d time.Duration) {
	c.Op("wait %v", d)
	w.SnapshotAt(1, d)
}

func main() {
	Main(Suite{Property: "C03", Scenarios: func(tier string) []Scenario {
		d := 0
		if tier == "thorough" {
			d = 1
		}
		run := func(name string, depth int, pre func(c *C, w *vmkit.World, m *model), ops []func(c *C, w *vmkit.World, m *model)) Scenario {
			return Scenario{Name: name, Bound: fmt.Sprintf("every sequence of %d steps out of %d", depth, len(ops)), Body: func(c *C) {
				w, m := world()
				if pre != nil {
					pre(c, w, m)
				}
				for i := 0; i < depth; i++ {
					ops[c.Choose(len(ops))](c, w, m)
					w.Snapshot(1)
					if c.Fresh() {
						check(c, w, m)
					}
				}
				check(c, w, m)
			}}
		}
		type f = func(c *C, w *vmkit.World, m *model)
		return []Scenario{
			run("registration", 4+d, func(c *C, w *vmkit.World, m *model) { w.SnapshotAt(1, 30*time.Hour) }, []f{
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, true, 0, "x", 0, 2, price) },
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, false, 0, "xy", 1, 0, price) },
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, true, 1, "x", 0, 1, price) },
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, true, 1, "y", 1, 2, price) },
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, true, 0, "x", 1, 3, vmkit.V(500000)) },
				func(c *C, w *vmkit.World, m *model) { m.produce(c, w, "", 0, "x", 1) },
				func(c *C, w *vmkit.World, m *model) { m.produce(c, w, "UpdateBlockProducingAddress", 0, "x", 0) },
				func(c *C, w *vmkit.World, m *model) { m.produce(c, w, "UpdateRegistration", 1, "x", 1) },
				func(c *C, w *vmkit.World, m *model) { m.revoke(c, w, "", 0, "x") },
				func(c *C, w *vmkit.World, m *model) { m.revoke(c, w, "Revoke", 1, "x") },
				func(c *C, w *vmkit.World, m *model) { m.withdraw(c, w, "", 0, "x", 0) },
				func(c *C, w *vmkit.World, m *model) { c.Op("wait"); w.Snapshot(lock) },
				func(c *C, w *vmkit.World, m *model) { wait(c, w, 26*time.Hour) },
			}),
			run("withdraw-addresses", 5+d, func(c *C, w *vmkit.World, m *model) {
				prod = append(prod[:2], vmkit.User(13))
				for i, n := range names {
					m.register(c, w, true, 0, n, i, i, price)
				}
			}, []f{
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "x", 2) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "xy", 2) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "y", 2) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "x", 0) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "xy", 0) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 0, "y", 3) },
				func(c *C, w *vmkit.World, m *model) { m.withdrawAddr(c, w, 1, "x", 1) },
			}),
			run("rewards", 5+d, func(c *C, w *vmkit.World, m *model) {
				gap := []time.Duration{0, 23 * time.Hour, 24*time.Hour - time.Second, 24 * time.Hour, 25 * time.Hour, 31 * time.Hour}[c.Choose(6)]
				if gap > 0 {
					w.SnapshotAt(1, gap)
				}
				m.register(c, w, true, 0, "x", 0, 2, price)
				w.Snapshot(lock)
			}, []f{
				func(c *C, w *vmkit.World, m *model) { m.withdraw(c, w, "", 0, "x", 0) },
				func(c *C, w *vmkit.World, m *model) { m.withdraw(c, w, "WithdrawReward", 2, "x", 1) },
				func(c *C, w *vmkit.World, m *model) { m.withdraw(c, w, "Reward", 1, "x", 1) },
				func(c *C, w *vmkit.World, m *model) { m.revoke(c, w, "CancelRegister", 0, "x") },
				func(c *C, w *vmkit.World, m *model) { m.register(c, w, true, 0, "x", 0, 0, price) },
				func(c *C, w *vmkit.World, m *model) { wait(c, w, 50*time.Minute) },
				func(c *C, w *vmkit.World, m *model) { wait(c, w, 13*time.Hour) },
				func(c *C, w *vmkit.World, m *model) { wait(c, w, 48*time.Hour) },
			}),
			run("votes", 5+d, func(c *C, w *vmkit.World, m *model) {
				m.register(c, w, true, 0, "x", 0, 2, price)
				m.register(c, w, true, 1, "xy", 1, 2, price)
				w.Snapshot(lock)
			}, []f{
				func(c *C, w *vmkit.World, m *model) { m.vote(c, w, true, 0, "x") },
				func(c *C, w *vmkit.World, m *model) { m.vote(c, w, false, 0, "xy") },
				func(c *C, w *vmkit.World, m *model) { m.vote(c, w, true, 1, "x") },
				func(c *C, w *vmkit.World, m *model) { m.vote(c, w, true, 2, "y") },
				func(c *C, w *vmkit.World, m *model) { m.unvote(c, w, true, 0) },
				func(c *C, w *vmkit.World, m *model) { m.unvote(c, w, false, 1) },
				func(c *C, w *vmkit.World, m *model) { m.revoke(c, w, "", 0, "x") },
			}),
			{Name: "reward-formula", Bound: "the reward query of every day 0 to 40 and every producer", Body: func(c *C) {
				w, m := world()
				w.SnapshotAt(1, 45*24*time.Hour)
				i := uint64(c.Choose(41))
				db := w.NewDb(types.AddressGovernance)
				got, err := contracts.CalcRewardByIndex(db, w.Reader, i)
				if err != nil {
					c.Fail("C03/query", "%v", err)
				}
				got2, idx, err := contracts.CalcRewardByCycle(db, w.Reader, m.genesis+int64(i)*day+int64(c.Choose(3))*(day-1)/2)
				if err != nil || idx != i {
					c.Fail("C03/query", "cycle %d instead of %d: %v", idx, i, err)
				}
				l, _ := (&stat{}).DayStats(i, i)
				total := new(big.Int)
				for n := range l[0].Stats {
					c.State()
					want := dayReward(i, n)
					total.Add(total, want)
					if got[n] == nil || got[n].TotalReward.Cmp(want) != 0 || got2[n] == nil || got2[n].TotalReward.Cmp(want) != 0 || new(big.Int).Add(got[n].VoteReward, got[n].BlockReward).Cmp(want) != 0 {
						c.Fail("C03/formula", "day %d %s: %v, expected %v", i, n, got[n], want)
					}
				}
				if len(got) != len(l[0].Stats) {
					c.Fail("C03/formula", "day %d: %d producers, expected %d", i, len(got), len(l[0].Stats))
				}
			}},
			{Name: "reward-not-due", Bound: "reward queries around the waiting time", Body: func(c *C) {
				w, m := world()
				off := []int64{-3600, -1, 0, 1, 3599, 3600, 3601}[c.Choose(7)]
				w.SnapshotAt(1, time.Duration(5*day+off)*time.Second)
				db := w.NewDb(types.AddressGovernance)
				_, e1 := contracts.CalcRewardByIndex(db, w.Reader, 4)
				_, _, e2 := contracts.CalcRewardByCycle(db, w.Reader, m.genesis+4*day+7)
				c.Op("offset %d", off)
				c.State()
				if (e1 == nil) != (off >= 3600) || (e2 == nil) != (off >= 3600) {
					c.Fail("C03/not-due", "offset %d: %v %v", off, e1, e2)
				}
			}},
			{Name: "bad-requests", Bound: "every method with boundary names, amounts and truncated data", Body: func(c *C) {
				w, m := world()
				m.register(c, w, true, 0, "x", 0, 2, price)
				w.Snapshot(lock)
				nm := []struct {
					s  string
					ok bool
				}{{"", false}, {"x", true}, {"x y", true}, {" x", false}, {"x ", false}, {"x  y", false}, {"x_.1", true}, {"x,y", false}, {strings.Repeat("n", 40), true}, {strings.Repeat("n", 41), false}, {"é", false}, {"x-y", false}}
				n := nm[c.Choose(len(nm))]
				g := types.SNAPSHOT_GID
				type q struct {
					d   []byte
					amt bool // an amount is part of the request
					chk bool // the name is checked when the request is made
				}
				qs := []q{
					{pack("RegisterSBP", n.s, prod[1], users[0]), true, true}, {pack("Register", g, n.s, prod[1]), true, true},
					{pack("UpdateSBPBlockProducingAddress", n.s, prod[1]), false, true}, {pack("UpdateBlockProducingAddress", g, n.s, prod[1]), false, true}, {pack("UpdateRegistration", g, n.s, prod[1]), false, true},
					{pack("UpdateSBPRewardWithdrawAddress", n.s, users[3]), false, true}, {pack("RevokeSBP", n.s), false, true}, {pack("Revoke", g, n.s), false, true}, {pack("CancelRegister", g, n.s), false, true},
					{pack("VoteForSBP", n.s), false, true}, {pack("Vote", g, n.s), false, true},
					{pack("WithdrawSBPReward", n.s, users[0]), false, false}, {pack("WithdrawReward", g, n.s, users[0]), false, false}, {pack("Reward", g, n.s, users[0]), false, false},
				}
				x := qs[c.Choose(len(qs))]
				amt := []*big.Int{new(big.Int), big.NewInt(1), price}[c.Choose(3)]
				sendOK := (n.ok || !x.chk) && (x.amt || amt.Sign() == 0)
				c.Op("%x %v %q", x.d[:4], amt, n.s)
				c.State()
				wc := w.Clone()
				k := wc.Call(users[0], types.AddressGovernance, vmkit.Vite, amt, x.d)
				if k.Bad != "" || (k.SendErr == nil) != sendOK {
					c.Fail("C03/bad-request", "accepted=%v expected %v: %v %s", k.SendErr == nil, sendOK, k.SendErr, k.Bad)
				}
				if amt.Sign() == 0 {
					end := len(x.d)
					for end > 4 && x.d[end-1] == 0 {
						end--
					}
					for cut := 0; cut < end; cut++ {
						c.State()
						wc := w.Clone()
						k := wc.Call(users[0], types.AddressGovernance, vmkit.Vite, amt, x.d[:cut])
						if k.Bad != "" || k.SendErr == nil {
							c.Fail("C03/cut", "request cut to %d of %d bytes: %v %s", cut, len(x.d), k.SendErr, k.Bad)
						}
					}
				}
				// the delegate group has no producers of its own
				for _, meth := range []string{"Vote", "Revoke", "WithdrawReward"} {
					var dd []byte
					if meth == "WithdrawReward" {
						dd = pack(meth, types.DELEGATE_GID, "x", users[0])
					} else {
						dd = pack(meth, types.DELEGATE_GID, "x")
					}
					if k := w.Clone().Call(users[0], types.AddressGovernance, vmkit.Vite, new(big.Int), dd); k.Bad != "" || k.SendErr == nil {
						c.Fail("C03/group", "%s of the delegate group: %v %s", meth, k.SendErr, k.Bad)
					}
				}
				m.unvote(c, w, c.Bool(), 0)
				check(c, w, m)
			}},
		}
	}, Assumptions: []string{"all network upgrades active", "the producer statistics are those the consensus reports (checked by S03)", "one consensus group with a registration lock of 3 snapshot blocks"}})
}
