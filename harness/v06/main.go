// Property V06: quota is what stake and proof of work pay for, and nobody uses more.
package main

import (
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

const section, sections, limit = 280, 3571, 1000000
const qcGap = 21000 * 74

type qdb struct {
	g      types.QuotaInfo
	list   []types.QuotaInfo
	unc    []*ledger.AccountBlock
	latest *ledger.AccountBlock
	conf   uint64
}

func (d *qdb) GetGlobalQuota() types.QuotaInfo                           { return d.g }
func (d *qdb) GetQuotaUsedList(types.Address) []types.QuotaInfo          { return d.list }
func (d *qdb) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock { return d.unc }
func (d *qdb) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) {
	return d.latest, nil
}
func (d *qdb) GetConfirmedTimes(types.Hash) (uint64, error) { return d.conf, nil }

var user = vmkit.User(1)
var con = vmkit.ContractAddr(1)

func setup(test bool) {
	vmkit.Init(nil)
	if cfg != 1 && !test {
		quota.InitQuotaConfig(false, false)
		cfg = 1
	} else if cfg != 2 && test {
		quota.InitQuotaConfig(false, true)
		cfg = 2
	}
}

var cfg int

func stakeQuota(d *qdb, x *big.Int) uint64 {
	q, err := quota.GetQuota(d, user, x, 10)
	if err != nil {
		panic(err)
	}
	return q.Current()
}

func powQuota(d *qdb, x *big.Int) uint64 {
	t, a, err := quota.GetQuotaForBlock(d, user, big.NewInt(0), x, 10)
	if err != nil {
		panic(err)
	}
	if t != a {
		panic("total differs from addition")
	}
	return a
}

func sub(x *big.Int, n int64) *big.Int { return new(big.Int).Sub(x, big.NewInt(n)) }

func tables(c *C, name string, test bool) {
	setup(test)
	part := c.Choose(16)
	d := &qdb{list: make([]types.QuotaInfo, 1)}
	var prev, prevDiff *big.Int
	amount := func(i int) *big.Int {
		if name == "stake" {
			x, err := quota.CalcStakeAmountByQuota(uint64(i * section))
			if err != nil {
				c.Fail("V06/"+name+"-table", "section %d: %v", i, err)
			}
			return x
		}
		x, err := quota.CalcPoWDifficulty(d, uint64(i*section), types.NewQuota(0, 0, 0, 0, false, 0), 10)
		if err != nil {
			c.Fail("V06/"+name+"-table", "section %d: %v", i, err)
		}
		return x
	}
	of := func(x *big.Int) uint64 {
		if name == "stake" {
			return stakeQuota(d, x)
		}
		return powQuota(d, x)
	}
	lo, hi := part*sections/16, (part+1)*sections/16
	c.Op("sections %d-%d", lo, hi)
	for i := lo; i <= hi; i++ {
		if i == 0 {
			continue
		}
		x := amount(i)
		c.AddStates(4)
		c.AddTransitions(4)
		if x.Sign() <= 0 {
			c.Fail("V06/"+name+"-table", "section %d costs %v", i, x)
		}
		if g := of(x); g != uint64(i*section) {
			c.Fail("V06/"+name+"-table", "%v gives %d, expected %d", x, g, i*section)
		}
		if g := of(sub(x, 1)); g != uint64((i-1)*section) {
			c.Fail("V06/"+name+"-table", "%v gives %d, expected %d", sub(x, 1), g, (i-1)*section)
		}
		if g := of(sub(x, -1)); g != uint64(i*section) && x.Cmp(amount(min(i+1, sections))) < 0 && amount(min(i+1, sections)).Cmp(sub(x, -1)) > 0 {
			c.Fail("V06/"+name+"-table", "%v gives %d, expected %d", sub(x, -1), g, i*section)
		}
		// less than a full section is charged like the full section
		if name == "stake" {
			for _, q := range []uint64{uint64(i*section) - section + 1, uint64(i*section) - 1} {
				if y, err := quota.CalcStakeAmountByQuota(q); err != nil || y.Cmp(x) != 0 {
					c.Fail("V06/"+name+"-table", "quota %d needs %v, expected %v", q, y, x)
				}
			}
		}
		// the price per section never falls
		if prev != nil {
			diff := new(big.Int).Sub(x, prev)
			if diff.Sign() <= 0 {
				c.Fail("V06/"+name+"-order", "section %d costs %v after %v", i, x, prev)
			}
			if prevDiff != nil {
				tol := new(big.Int).Div(prevDiff, big.NewInt(20))
				if new(big.Int).Add(diff, tol).Cmp(prevDiff) < 0 {
					c.Fail("V06/"+name+"-convex", "section %d costs %v more, the one before %v", i, diff, prevDiff)
				}
			}
			prevDiff = diff
		}
		prev = x
	}
	if part == 0 {
		if of(big.NewInt(0)) != 0 || of(big.NewInt(1)) != 0 || of(big.NewInt(-5)) != 0 {
			c.Fail("V06/"+name+"-zero", "nothing staked gives quota")
		}
		max := new(big.Int).Lsh(big.NewInt(1), 255)
		if g := of(max); g != section*sections {
			c.Fail("V06/"+name+"-max", "maximum is %d", g)
		}
		if name == "stake" {
			if _, err := quota.CalcStakeAmountByQuota(section*sections + 1); err == nil {
				c.Fail("V06/stake-max", "more than the maximum can be bought")
			}
			if x, err := quota.CalcStakeAmountByQuota(0); err != nil || x.Sign() != 0 {
				c.Fail("V06/stake-zero", "nothing costs %v", x)
			}
		} else {
			if _, err := quota.CalcPoWDifficulty(d, limit+1, types.NewQuota(0, 0, 0, 0, false, 0), 10); err == nil {
				c.Fail("V06/pow-max", "more than the block limit can be bought")
			}
			if x, err := quota.CalcPoWDifficulty(d, 5000, types.NewQuota(0, 5000, 0, 0, false, 0), 10); err != nil || x.Sign() != 0 {
				c.Fail("V06/pow-zero", "difficulty %v although the quota suffices", x)
			}
		}
	}
}

func congestion(c *C) {
	setup(false)
	one := big.NewInt(1e18)
	idx := uint64(c.Choose(26))*20 + 1
	c.Op("from %d", idx)
	for i := idx; i < idx+20; i++ {
		for _, g := range []uint64{(i-1)*qcGap + 1, i * qcGap} {
			d := &qdb{list: make([]types.QuotaInfo, 1), g: types.QuotaInfo{QuotaUsedTotal: g}}
			qc, gg, cong := quota.CalcQc(d, 10)
			c.AddStates(1)
			if gg != g || cong != (i >= 51) || qc.Cmp(one) > 0 || qc.Sign() <= 0 || (!cong && qc.Cmp(one) != 0) {
				c.Fail("V06/qc", "load %d: factor %v congested %v", g, qc, cong)
			}
			// the factor falls strictly with the load up to the last step and stays there
			dn := &qdb{g: types.QuotaInfo{QuotaUsedTotal: g + qcGap}}
			qn, _, _ := quota.CalcQc(dn, 10)
			if i >= 50 && i < 500 && qn.Cmp(qc) >= 0 || i >= 500 && qn.Cmp(qc) != 0 {
				c.Fail("V06/qc-order", "load %d: factor %v, next %v", g, qc, qn)
			}
			d2 := &qdb{list: make([]types.QuotaInfo, 1)}
			for _, sec := range []int{1, 2, 75, 100, 1000, 3000, 3571} {
				x, _ := quota.CalcStakeAmountByQuota(uint64(sec * section))
				for _, mul := range []int64{1, 3} {
					y := new(big.Int).Mul(x, big.NewInt(mul))
					eff := new(big.Int).Div(new(big.Int).Mul(y, qc), one)
					c.AddStates(1)
					c.AddTransitions(1)
					if a, b := stakeQuota(d, y), stakeQuota(d2, eff); a != b {
						c.Fail("V06/qc-stake", "load %d stake %v gives %d, expected %d", g, y, a, b)
					}
				}
				if sec*section <= limit {
					q := uint64(sec * section)
					x, err := quota.CalcPoWDifficulty(d, q, types.NewQuota(0, 0, 0, 0, false, 0), 10)
					if err != nil {
						c.Fail("V06/qc-pow", "load %d quota %d: %v", g, q, err)
					}
					if a := powQuota(d, x); a < q {
						c.Fail("V06/qc-pow", "load %d: difficulty %v gives %d, wanted %d", g, x, a, q)
					}
					if a := powQuota(d, sub(x, 2)); a >= q {
						c.Fail("V06/qc-pow", "load %d: less than the asked difficulty suffices for %d", g, q)
					}
				}
			}
		}
	}
}

// reference: unused quota accumulates over the window, never below zero
func refQuota(s uint64, list []types.QuotaInfo) (cur, snap, avg uint64, bad bool) {
	var have, used, blocks uint64
	for i, q := range list {
		have += s
		used += q.QuotaUsedTotal
		blocks += q.BlockCount
		if i == len(list)-1 {
			snap = have
			if have < q.QuotaTotal {
				bad = true
				have = 0
			} else {
				have -= q.QuotaTotal
			}
		} else if have < q.QuotaTotal {
			have = 0
		} else {
			have -= q.QuotaTotal
		}
	}
	if blocks > 0 {
		avg = used / blocks
	}
	return have, snap, avg, bad
}

func windows(c *C, n int) {
	setup(false)
	x, _ := quota.CalcStakeAmountByQuota(100 * section)
	s := uint64(100 * section)
	us := []uint64{0, 100, s / 2, s, s + 1, 2 * s, 5 * s}
	first := c.Choose(len(us))
	second := c.Choose(len(us))
	pow := c.Choose(3)
	c.Op("window starting %d %d pow %d", us[first], us[second], pow)
	total := 1
	for i := 2; i < n; i++ {
		total *= len(us)
	}
	var dif *big.Int
	var add uint64
	d := &qdb{list: make([]types.QuotaInfo, 1)}
	if pow > 0 {
		add = uint64([]int{0, 10, 3571}[pow] * section)
		dif, _ = quota.CalcPoWDifficulty(d, add, types.NewQuota(0, 0, 0, 0, false, 0), 10)
	}
	for l := 0; l <= n; l++ {
		cnt := total
		if l < 2 {
			cnt = 1
		}
		for k := 0; k < cnt; k++ {
			list := make([]types.QuotaInfo, l)
			for i, y := 0, k; i < l; i++ {
				u := us[first]
				if i == 1 {
					u = us[second]
				} else if i > 1 {
					u = us[y%len(us)]
					y /= len(us)
				}
				list[i] = types.QuotaInfo{QuotaTotal: u, QuotaUsedTotal: u + 10, BlockCount: uint64(i % 3)}
			}
			d.list = list
			cur, snap, avg, bad := refQuota(s, list)
			q, err := quota.GetQuota(d, user, x, 10)
			c.AddStates(1)
			c.AddTransitions(1)
			if bad {
				if err != util.ErrInvalidUnconfirmedQuota {
					c.Fail("V06/window", "list %v: %v", list, err)
				}
				if _, _, err := quota.GetQuotaForBlock(d, user, x, dif, 10); err != util.ErrInvalidUnconfirmedQuota {
					c.Fail("V06/window", "list %v: block allowed, %v", list, err)
				}
				continue
			}
			if err != nil || q.Current() != cur || q.SnapshotCurrent() != snap || q.Avg() != avg || q.StakeQuotaPerSnapshotBlock() != s || q.Blocked() {
				c.Fail("V06/window", "list %v: %+v %v, expected %d %d %d", list, q, err, cur, snap, avg)
			}
			want, wantAdd := cur+add, add
			if want > limit {
				want = limit
			}
			if wantAdd > limit {
				wantAdd = limit
			}
			t, a, err := quota.GetQuotaForBlock(d, user, x, dif, 10)
			if err != nil || t != want || a != wantAdd {
				c.Fail("V06/block", "list %v pow %d: %d %d %v, expected %d %d", list, add, t, a, err, want, wantAdd)
			}
			if ok, _ := quota.CheckQuota(d, q, user); ok != (cur >= avg) {
				c.Fail("V06/check", "list %v: receive allowed=%v", list, ok)
			}
		}
	}
}

func blocked(c *C) {
	setup(false)
	x, _ := quota.CalcStakeAmountByQuota(100 * section)
	bt := []byte{ledger.BlockTypeReceive, ledger.BlockTypeReceiveError, ledger.BlockTypeSendCall}[c.Choose(3)]
	addr := []types.Address{user, con}[c.Choose(2)]
	c.Op("latest block type %d", bt)
	for conf := uint64(0); conf < 80; conf++ {
		d := &qdb{list: make([]types.QuotaInfo, 3), latest: &ledger.AccountBlock{BlockType: bt}, conf: conf}
		want := bt == ledger.BlockTypeReceiveError && addr == con && conf < 75
		q, err := quota.GetQuota(d, addr, x, 10)
		c.AddStates(1)
		if err != nil || q.Blocked() != want || (want && (q.Current() != 0 || q.BlockReleaseHeight() != 75-conf)) || (!want && q.Current() != 300*section) {
			c.Fail("V06/blocked", "type %d confirmed %d: %+v %v", bt, conf, q, err)
		}
		if ok, _ := quota.CheckQuota(d, q, addr); ok == want {
			c.Fail("V06/blocked", "type %d confirmed %d: receive allowed=%v", bt, conf, ok)
		}
		t, _, err := quota.GetQuotaForBlock(d, addr, x, nil, 10)
		if err != nil || (t == 0) != want {
			c.Fail("V06/blocked", "type %d confirmed %d: quota %d", bt, conf, t)
		}
	}
}

// a user with stake sends and snapshots pass: what is accepted and charged
func rolling(c *C, depth int) {
	setup(false)
	w := vmkit.New()
	st, _ := quota.CalcStakeAmountByQuota(50 * section)
	w.Stake = st
	s := uint64(50 * section)
	w.SetBal(user, vmkit.Vite, big.NewInt(1000))
	list := []types.QuotaInfo{{}, {}}
	w.QuotaList = list
	pd, _ := quota.CalcPoWDifficulty(w, 100*section, types.NewQuota(0, 0, 0, 0, false, 0), 10)
	powUsed := false
	for i := 0; i < depth; i++ {
		o := c.Choose(5)
		switch {
		case o == 4:
			c.Op("snapshot")
			w.Snapshot(1)
			list = append(append([]types.QuotaInfo{}, list...), types.QuotaInfo{})
			if len(list) > 4 {
				list = list[len(list)-4:]
			}
			powUsed = false
		default:
			n := []int{0, 100, 0, 600}[o]
			withPow := o >= 2
			b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: user, ToAddress: vmkit.User(2), TokenId: vmkit.Vite, Amount: big.NewInt(1), Fee: big.NewInt(0), Data: make([]byte, n)}
			add := uint64(0)
			if withPow {
				b.Difficulty, b.Nonce = pd, []byte{1, 2, 3, 4, 5, 6, 7, 8}
				add = 100 * section
			}
			cost := uint64(21000 + 28*n)
			cur, _, _, _ := refQuota(s, list)
			c.Op("send %d bytes pow=%v", n, withPow)
			r := w.Run(b, nil)
			if r.Panic != nil {
				c.Fail("V06/panic", "%v", r.Panic)
			}
			ok := r.Block != nil && r.Err == nil
			want := cur+add >= cost && !(withPow && powUsed)
			if ok != want {
				c.Fail("V06/accept", "accepted=%v (%v), available %d + %d, cost %d", ok, r.Err, cur, add, cost)
			}
			if ok {
				fromStake := uint64(0)
				if cost > add {
					fromStake = cost - add
				}
				if r.Block.QuotaUsed != cost || r.Block.Quota != fromStake {
					c.Fail("V06/charge", "block used %d, %d of stake, expected %d, %d", r.Block.QuotaUsed, r.Block.Quota, cost, fromStake)
				}
				w.Commit(r)
				list = append([]types.QuotaInfo{}, list...)
				l := &list[len(list)-1]
				l.QuotaTotal += r.Block.Quota
				l.QuotaUsedTotal += r.Block.QuotaUsed
				l.BlockCount++
				powUsed = powUsed || withPow
				if x, err := quota.CalcBlockQuotaUsed(w, r.Block, 10); err != nil || x != fromStake {
					c.Fail("V06/recalc", "recomputed stake quota %d, expected %d", x, fromStake)
				}
			}
		}
		w.QuotaList = list
		if c.Fresh() {
			c.State()
		}
	}
}

func main() {
	Main(Suite{Property: "V06", Scenarios: func(tier string) []Scenario {
		n, d := 6, 8
		if tier == "thorough" {
			n, d = 7, 9
		}
		return []Scenario{
			{Name: "stake-table", Bound: "all 3571 sections, main parameters", Body: func(c *C) { tables(c, "stake", false) }},
			{Name: "pow-table", Bound: "all 3571 sections, main parameters", Body: func(c *C) { tables(c, "pow", false) }},
			{Name: "pow-table-test", Bound: "all 3571 sections, test parameters", Body: func(c *C) { tables(c, "pow", true) }},
			{Name: "congestion", Bound: "every congestion step from 1 to 520", Body: congestion},
			{Name: "windows", Bound: fmt.Sprintf("every usage window of up to %d snapshots over 7 usage levels, with and without proof of work", n), Body: func(c *C) { windows(c, n) }},
			{Name: "blocked", Bound: "every confirmation count after an out-of-quota receive", Body: blocked},
			{Name: "rolling", Bound: fmt.Sprintf("every sequence of %d sends and snapshots", d), Body: func(c *C) { rolling(c, d) }},
		}
	}, Assumptions: []string{"the usage window is the one the ledger reports (checked by L02, L03, L09)"}})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
