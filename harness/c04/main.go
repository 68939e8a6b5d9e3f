// Property C04: the exchange's accounts are exact and always covered by what the exchange holds.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dk "github.com/vitelabs/go-vite/v2/zz_verif/dexkit"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var V = vmkit.V

func ok(c *C, key, msg string) {
	c.State()
	if key != "" {
		c.Fail("C04/"+key, "%s", msg)
	}
}

func check(c *C, x *dk.X) {
	if k, m := x.Check(); k != "" {
		c.Fail("C04/"+k, "%s", m)
	}
	if k, m := x.CheckStakes(); k != "" {
		c.Fail("C04/"+k, "%s", m)
	}
}

func do(c *C, x *dk.X, what string, f func() (string, string)) {
	c.Op("%s", what)
	k, m := f()
	ok(c, k, m)
	check(c, x)
}

func newX() *dk.X {
	x := dk.New()
	x.W.Twice = true
	return x
}

func plus(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }

// trade makes one trade that pays fees.
func trade(c *C, x *dk.X, mi int, n int64) {
	m := x.Ms[mi]
	q := new(big.Int).Mul(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(m.Trade.Dec)), nil), big.NewInt(n))
	p := "61.7"
	if m.Quote == dk.BTC {
		p = "0.01537"
	}
	for u := 0; u < 2; u++ {
		if k, s := x.Place(dk.Req{U: u, M: mi, Sell: u == 0, Price: p, Qty: q}); k != "" {
			c.Fail("C04/"+k, "%s", s)
		}
	}
}

func main() {
	Main(Suite{Property: "C04", QuickBudget: 110 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		few := func(q, t int) int {
			if quick {
				return q
			}
			return t
		}
		return []Scenario{
			{Name: "money", Bound: fmt.Sprintf("every sequence of %d deposits, withdrawals, transfers and orders of 2 users with boundary amounts", few(3, 4)), Body: func(c *C) {
				x := newX()
				t := []*dk.Tok{dk.VITE, dk.T0, dk.VX}[c.Choose(3)]
				x.Give(3, t, big.NewInt(5))
				for i := 0; i < few(3, 4); i++ {
					u := []int{3, 0}[c.Choose(2)]
					a := []*big.Int{big.NewInt(1), plus(x.A(u, t).Av, 0), plus(x.A(u, t).Av, 1)}[c.Choose(3)]
					switch c.Choose(5) {
					case 0:
						do(c, x, fmt.Sprintf("deposit u%d", u), func() (string, string) { return x.Deposit(u, u, t, a) })
					case 1:
						do(c, x, fmt.Sprintf("deposit u%d for the other", u), func() (string, string) { return x.Deposit(u, 3-u, t, a) })
					case 2:
						do(c, x, fmt.Sprintf("withdraw u%d", u), func() (string, string) { return x.Withdraw(u, u, t, a) })
					case 3:
						do(c, x, fmt.Sprintf("withdraw u%d to the other", u), func() (string, string) { return x.Withdraw(u, 3-u, t, a) })
					case 4:
						do(c, x, fmt.Sprintf("transfer u%d", u), func() (string, string) {
							return x.Transfer(u, []int{3 - u, u}[c.Choose(2)], t, a)
						})
					}
				}
			}},
			{Name: "money-zero", Bound: "zero and huge amounts of each request", Body: func(c *C) {
				x := newX()
				a := []*big.Int{new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 255)}[c.Choose(3)]
				u := []int{0, 3}[c.Choose(2)]
				switch c.Choose(5) {
				case 0:
					if a.Sign() == 0 {
						do(c, x, "deposit", func() (string, string) { return x.Deposit(u, u, dk.VITE, a) })
					}
				case 1:
					if a.Sign() == 0 {
						do(c, x, "deposit", func() (string, string) { return x.Deposit(u, 1, dk.VITE, a) })
					}
				case 2:
					do(c, x, "withdraw", func() (string, string) { return x.Withdraw(u, u, dk.VITE, a) })
				case 3:
					do(c, x, "withdraw", func() (string, string) { return x.Withdraw(u, 1, dk.VITE, a) })
				case 4:
					do(c, x, "transfer", func() (string, string) { return x.Transfer(u, 1, dk.VITE, a) })
				}
			}},
			{Name: "locked-money", Bound: "money locked in orders cannot be withdrawn, transferred, staked or locked again", Body: func(c *C) {
				x := newX()
				tok := []*dk.Tok{dk.VITE, dk.T18}[c.Choose(2)]
				x.Give(3, tok, V(200))
				r := dk.Req{U: 3, M: 0, Sell: tok == dk.T18, Price: "60", Qty: V(3)}
				if k, m := x.Place(r); k != "" {
					c.Fail("C04/"+k, "%s", m)
				}
				free := plus(x.A(3, tok).Av, []int64{0, 1}[c.Choose(2)])
				switch c.Choose(4) {
				case 0:
					do(c, x, "withdraw", func() (string, string) { return x.Withdraw(3, 3, tok, free) })
				case 1:
					do(c, x, "transfer", func() (string, string) { return x.Transfer(3, 0, tok, free) })
				case 2:
					do(c, x, "withdraw", func() (string, string) { return x.Withdraw(3, 0, tok, free) })
				case 3:
					do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 3, 3, V(134)) })
				}
				o := x.Open[0]
				if k, m := x.Cancel(o, 3, 1, types.Address{}, false); k != "" {
					c.Fail("C04/"+k, "%s", m)
				}
				check(c, x)
			}},
			{Name: "stakes", Bound: fmt.Sprintf("every sequence of %d stakes and cancellations of 2 users, just before and at the end of the lock", few(3, 4)), Body: func(c *C) {
				x := newX()
				x.W.Twice = false
				for i := 0; i < few(3, 4); i++ {
					n := 7
					k := c.Choose(n + 2*len(x.Stakes))
					if k >= n {
						s := x.Stakes[(k-n)/2]
						by := (k - n) % 2
						if i == few(3, 4)-1 || c.Bool() {
							if h := int64(s.Due) - int64(x.W.SB().Height) - int64(c.Choose(2)); h > 0 {
								x.W.Snapshot(int(h))
							}
						}
						do(c, x, fmt.Sprintf("u%d cancels stake %d", by, (k-n)/2), func() (string, string) { return x.Unstake(by, s) })
						continue
					}
					u := k % 2
					if k < 6 {
						do(c, x, fmt.Sprintf("u%d stakes kind %d", u, k/2), func() (string, string) {
							return x.Stake([]int{dk.ForMining, dk.ForVIP, dk.ForOther}[k/2], u, 1-u, V(200))
						})
					} else {
						do(c, x, "u0 stakes for SVIP", func() (string, string) { return x.Stake(dk.ForSVIP, 0, 0, nil) })
					}
				}
			}},
			{Name: "stake-limits", Bound: "stakes around the smallest amount and the available balance; old cancellation requests", Body: func(c *C) {
				x := newX()
				x.Give(3, dk.VITE, plus(V(134), []int64{-1, 0, 1, 134}[c.Choose(4)]))
				do(c, x, "stake", func() (string, string) {
					return x.Stake([]int{dk.ForMining, dk.ForVIP, dk.ForSVIP, dk.ForOther}[c.Choose(4)], 3, 0, plus(V(134), []int64{-1, 0, 1}[c.Choose(3)]))
				})
				k := c.Choose(3)
				do(c, x, "old cancel", func() (string, string) { return x.OldUnstake(k, []int{3, 0}[c.Choose(2)]) })
			}},
			{Name: "return-schedule", Bound: "cancelled mining stakes and unlocked VX come back after exactly 7 periods, in every order of 2 events and 10 periods of jobs", Body: func(c *C) {
				x := newX()
				x.W.Twice = false
				p1, p2 := c.Choose(3), c.Choose(few(2, 4))
				what := c.Choose(2)
				u2 := c.Choose(2)
				if what == 0 {
					do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 0, 0, V(200)) })
					do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, u2, 0, V(300)) })
					x.W.Snapshot(600)
				} else {
					do(c, x, "lock", func() (string, string) { return x.LockVX(0, true, V(50)) })
					do(c, x, "lock", func() (string, string) { return x.LockVX(u2, true, V(70)) })
				}
				ev := func(i int) {
					if what == 0 {
						do(c, x, "unstake", func() (string, string) { return x.Unstake(x.Stakes[i].Owner, x.Stakes[i]) })
					} else {
						do(c, x, "unlock", func() (string, string) { return x.LockVX([]int{0, u2}[i], false, V(20)) })
					}
				}
				for d := 0; d < 13; d++ {
					if d == p1 {
						ev(0)
					}
					if d == p1+p2 {
						ev(1)
					}
					x.Tick(dk.Day)
					do(c, x, fmt.Sprintf("jobs of period %d", x.Period()-1), func() (string, string) { return x.Job(dk.Admin, x.Period()-1, []uint8{7, 6}[what]) })
				}
			}},
			{Name: "vx-lock", Bound: fmt.Sprintf("every sequence of %d VX locks and unlocks with boundary amounts over periods", few(4, 5)), Body: func(c *C) {
				x := newX()
				x.Give(3, dk.VX, V(25))
				for i := 0; i < few(4, 5); i++ {
					switch k := c.Choose(7); k {
					case 0, 1, 2:
						do(c, x, "lock", func() (string, string) {
							return x.LockVX(3, true, []*big.Int{V(9), V(16), plus(V(1), -1)}[k])
						})
					case 3, 4, 5:
						do(c, x, "unlock", func() (string, string) { return x.LockVX(3, false, []*big.Int{V(6), V(9), V(16)}[k-3]) })
					case 6:
						x.Tick(dk.Day)
						c.Op("next period")
						check(c, x)
					}
				}
			}},
			{Name: "dividends", Bound: "fees of 3 periods paid out to every arrangement of locked VX, on time, late or in pieces", Body: func(c *C) {
				x := newX()
				for i := range x.Ms {
					x.ConfigMarket(x.Ms[i], 50, 30)
				}
				x.Must(dk.Admin, dk.VITE, new(big.Int), "NotifyTime", x.Now+1)
				x.Now++
				lay := c.Choose(10)
				lock := func(u int, a *big.Int) {
					do(c, x, fmt.Sprintf("u%d locks", u), func() (string, string) { return x.LockVX(u, true, a) })
				}
				switch lay {
				case 1:
					lock(0, V(10))
				case 2:
					lock(0, V(9))
					lock(1, V(10))
				case 3:
					lock(0, V(33))
					lock(1, V(33))
					lock(2, plus(V(33), 7))
				case 4:
					lock(0, V(1000))
					lock(1, V(11))
				case 5:
					lock(2, V(10))
					lock(0, plus(V(10), 1))
				}
				if lay > 5 { // three large holders and a tiny one
					x.Give(3, dk.VX, V(1000000))
					for u := 0; u < 4; u++ {
						if u == lay-6 {
							lock(u, V(10))
						} else {
							lock(u, V(1000000))
						}
					}
				}
				late := c.Choose(2)
				for d := 0; d < 3; d++ {
					trade(c, x, []int{2, 3, 0}[d], int64(900+d*77))
					trade(c, x, []int{2, 3, 1}[d], int64(900+d*31))
					trade(c, x, []int{4, 3, 1}[d], 19)
					if d == 1 {
						switch c.Choose(4) {
						case 1:
							lock(2, V(40))
						case 2:
							do(c, x, "unlock", func() (string, string) { return x.LockVX(0, false, V(10)) })
						case 3:
							do(c, x, "transfer VX", func() (string, string) { return x.Transfer(0, 1, dk.VX, V(77)) })
						}
					}
					x.Tick(dk.Day)
					if late == 0 {
						p := x.Period() - 1
						do(c, x, "dividend", func() (string, string) { return x.Job(dk.Admin, p, 1) })
						do(c, x, "operator dividend", func() (string, string) { return x.Job(dk.Admin, p, 2) })
					}
				}
				for i := 0; late == 1 && i < 3; i++ {
					p := x.Period() - 3 + uint64(i)
					if i == 0 && c.Bool() {
						continue // starts with the second period
					}
					do(c, x, "dividend", func() (string, string) { return x.Job(dk.Admin, p, 1) })
					do(c, x, "operator dividend", func() (string, string) { return x.Job(dk.Admin, p, 2) })
				}
			}},
			{Name: "mining", Bound: "VX mined for fees, stakes, makers and maintainers from full, short and nearly empty pools in every job order", Body: func(c *C) {
				x := newX()
				for i := range x.Ms {
					x.AllowMining(x.Ms[i])
				}
				pools := []*big.Int{V(1000000), V(5100), plus(V(5100), 1), V(4100), plus(V(4100), 1), V(10000), V(4000), plus(V(1050), 3), big.NewInt(3)}
				do(c, x, "endorse", func() (string, string) { return x.Endorse(0, pools[c.Choose(len(pools))]) })
				inv := c.Bool()
				if inv {
					x.Invite(2, 0)
				}
				do(c, x, "auto", func() (string, string) { return x.AutoLock(1, true) })
				do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 0, 0, V(200)) })
				if c.Bool() {
					do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 1, 1, plus(V(333), 1)) })
				}
				trade(c, x, 0, 900)
				trade(c, x, 2, 700)
				x.Tick(dk.Day)
				trade(c, x, 3, 1000)
				trade(c, x, 0, 10)
				if c.Bool() {
					do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 2, 2, V(134)) })
				}
				x.Tick(dk.Day)
				first := x.Period() - 2
				if c.Bool() {
					first++
				}
				order := [][]uint8{{3, 4, 5}, {5, 4, 3}, {4, 3, 5}, {1, 3, 4}}[c.Choose(4)]
				for p := first; p < x.Period(); p++ {
					for _, b := range order {
						do(c, x, fmt.Sprintf("job %d of period %d", b, p), func() (string, string) { return x.Job(dk.Admin, p, b) })
					}
				}
				if order[0] == 1 {
					return
				}
				// the makers' share is handed out in pages
				p := first
				half := []*big.Int{V(700), V(5000)}[c.Choose(2)]
				do(c, x, "settle", func() (string, string) {
					return x.SettleMaker(dk.Admin, p, 1, []int{0, 1}, []*big.Int{V(1), half})
				})
				do(c, x, "settle", func() (string, string) {
					return x.SettleMaker(dk.Admin, p+uint64(c.Choose(2)), int32(1+c.Choose(3)), []int{2, 1}, []*big.Int{V(100), V(9000)})
				})
			}},
			{Name: "mining-churn", Bound: fmt.Sprintf("every arrangement of stakes, cancellations and trades over 3 periods, then the mining jobs from each period on%s", map[bool]string{true: "", false: " or on time"}[quick]), Body: func(c *C) {
				x := newX()
				x.W.Twice = false
				for i := range x.Ms {
					x.AllowMining(x.Ms[i])
				}
				do(c, x, "endorse", func() (string, string) { return x.Endorse(0, V(1000000)) })
				do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 1, 1, V(200)) })
				do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 0, 0, V(300)) })
				ontime := !quick && c.Bool()
				first := x.Period()
				kind := []uint8{3, 4}[c.Choose(2)]
				for d := 0; d < 3; d++ {
					if kind == 3 {
						if c.Bool() {
							trade(c, x, 0, int64(900+d))
						}
					} else {
						switch a := c.Choose(4); a {
						case 1, 2, 3:
							if a&1 != 0 {
								do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 0, 0, plus(V(134), int64(d))) })
							}
							if a&2 != 0 {
								x.W.Snapshot(600)
								for _, s := range x.Stakes {
									if s.Owner == 0 && !s.Gone {
										do(c, x, "unstake", func() (string, string) { return x.Unstake(0, s) })
									}
								}
							}
						}
					}
					x.Tick(dk.Day)
					if ontime {
						do(c, x, "mine", func() (string, string) { return x.Job(dk.Admin, x.Period()-1, kind) })
					}
				}
				if ontime {
					return
				}
				for p := first + uint64(c.Choose(3)); p < x.Period(); p++ {
					do(c, x, fmt.Sprintf("job %d of period %d", kind, p), func() (string, string) { return x.Job(dk.Admin, p, kind) })
				}
			}},
			{Name: "normal-mining", Bound: "normal mining started before each of 3 periods, jobs in 2 orders, the burn of the excess at each point; the mined amount of every day of 8 years", Body: func(c *C) {
				k := c.Choose(13)
				if k == 12 {
					total := new(big.Int)
					for i := uint64(0); i < 365*8; i += 1 + i/300*6 {
						if g := dex.GetVxAmountByPeriodIndex(i); g.Cmp(dk.Daily(i)) != 0 {
							c.Fail("C04/daily", "day %d mines %s, expected %s", i, g, dk.Daily(i))
						}
						c.AddStates(1)
						total.Add(total, dk.Daily(i))
					}
					return
				}
				x := newX()
				do(c, x, "endorse", func() (string, string) { return x.Endorse(0, V(100000000)) })
				do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForMining, 1, 1, V(200)) })
				start, burn := k%3, k/3
				order := [][]uint8{{3, 4, 5}, {5, 4, 3}}[c.Choose(2)]
				for d := 0; d < 3; d++ {
					if d == start {
						do(c, x, "start", func() (string, string) { return x.StartNormal(dk.Admin) })
					}
					trade(c, x, 2, 700)
					x.Tick(dk.Day)
					if d == burn {
						do(c, x, "burn", func() (string, string) { return x.Burn(dk.Admin) })
					}
					for _, b := range order {
						do(c, x, fmt.Sprintf("job %d", b), func() (string, string) { return x.Job(dk.Admin, x.Period()-1, b) })
					}
				}
				for i := 0; i < 2; i++ {
					do(c, x, "burn", func() (string, string) { return x.Burn(dk.Admin) })
				}
			}},
			{Name: "job-order", Bound: "every job requested by anybody, for every period around the current one, twice", Body: func(c *C) {
				x := newX()
				do(c, x, "endorse", func() (string, string) { return x.Endorse(0, V(100000)) })
				for i := 0; i < 3; i++ {
					x.Tick(dk.Day)
				}
				b := uint8(1 + c.Choose(7))
				for i := 0; i < 2; i++ {
					by := []int{dk.Admin, 0}[c.Choose(2)]
					p := x.Period() - uint64(c.Choose(4)) + 1
					do(c, x, fmt.Sprintf("job %d", b), func() (string, string) { return x.Job(by, p, b) })
				}
			}},
			{Name: "forged", Bound: "every internal and administrative request made by an ordinary user", Body: func(c *C) {
				x := newX()
				do(c, x, "stake", func() (string, string) { return x.Stake(dk.ForVIP, 0, 0, nil) })
				z, za, zt := new(big.Int), types.Address{}, types.TokenTypeId{}
				me := dk.Users[1]
				id := x.Stakes[0].ID
				m := x.Ms[0]
				type q struct {
					to types.Address
					d  []byte
				}
				f, t := types.AddressDexFund, types.AddressDexTrade
				qs := []q{
					{f, dk.Fund("DelegateStakeCallback", me, f, V(1000), uint8(1), true)}, {f, dk.Fund("CancelDelegateStakeCallback", me, f, V(1000), uint8(1), true)},
					{f, dk.Fund("StakeForQuotaWithCallbackCallback", id, false)}, {f, dk.Fund("CancelQuotaStakingWithCallbackCallback", id, true)},
					{f, dk.Fund("SettleOrders", []byte{})}, {f, dk.Fund("NotifyTime", x.Now+5)}, {f, dk.Fund("TriggerPeriodJob", x.Period()-1, uint8(1))},
					{f, dk.Fund("DexAdminConfig", uint8(1), me, za, za, false, za, za)}, {f, dk.Fund("DexAdminConfig", uint8(2), me, me, za, false, za, za)}, {f, dk.Fund("DexAdminConfig", uint8(8), za, za, za, true, za, za)},
					{f, dk.Fund("TradeAdminConfig", uint8(1), m.Trade.ID, m.Quote.ID, true, zt, uint8(0), uint8(0), z, uint8(0), z)},
					{f, dk.Fund("TradeAdminConfig", uint8(4), zt, zt, false, zt, uint8(0), uint8(1), big.NewInt(1), uint8(0), z)},
					{f, dk.Fund("TradeAdminConfig", uint8(32), zt, zt, false, zt, uint8(0), uint8(0), z, uint8(0), z)},
					{f, dk.Fund("MarketAdminConfig", uint8(1), m.Trade.ID, m.Quote.ID, me, int32(0), int32(0), false)}, {f, dk.Fund("MarketAdminConfig", uint8(6), m.Trade.ID, m.Quote.ID, za, int32(200), int32(200), false)}, {f, dk.Fund("MarketAdminConfig", uint8(8), m.Trade.ID, m.Quote.ID, za, int32(0), int32(0), true)},
					{f, dk.Fund("CommonAdminConfig", uint8(1), m.Trade.ID, m.Quote.ID, true, int32(0), z, za)}, {f, dk.Fund("CommonAdminConfig", uint8(2), zt, zt, false, int32(1), big.NewInt(1), za)},
					{f, dk.Fund("TransferTokenOwnership", dk.T18.ID, me)}, {f, dk.Fund("SettleMakerMinedVx", []byte{})}, {f, dk.Fund("CancelStakeById", id)},
					{t, dk.Trade("SyncNewMarket", []byte{})}, {t, dk.Trade("PlaceOrder", []byte{})}, {t, dk.Trade("CancelOrder", make([]byte, 22))}, {t, dk.Trade("InnerCancelOrderBySendHash", id, me)},
				}
				k := c.Choose(len(qs))
				c.Op("request %x", qs[k].d[:4])
				c.State()
				x.W.Snapshot(600)
				r := x.W.Call(me, qs[k].to, vmkit.Vite, z, qs[k].d)
				if r.Bad != "" || r.SendErr == nil && r.OK {
					c.Fail("C04/forged", "request %x of an ordinary user was carried out: %s", qs[k].d[:4], r.Bad)
				}
				if s := x.W.MustSettle(); s != "" {
					c.Fail("C04/forged", "%s", s)
				}
				check(c, x)
				// nothing changed for those who may
				x.ConfigMarket(m, 10, 10)
				trade(c, x, 0, 5)
				check(c, x)
			}},
		}
	}, Assumptions: []string{"all network upgrades active", "exchange time advances as its oracle says", "requests that take no payment carry none"}})
}
