// Property C05: the exchange matches orders by price and time, exactly, and every order is settled to the unit.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dk "github.com/vitelabs/go-vite/v2/zz_verif/dexkit"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

func place(c *C, x *dk.X, r dk.Req) {
	c.Op("%v", r)
	c.State()
	if k, m := x.Place(r); k != "" {
		c.Fail("C05/"+k, "%s", m)
	}
	check(c, x)
}

func check(c *C, x *dk.X) {
	if k, m := x.Check(); k != "" {
		c.Fail("C05/"+k, "%s", m)
	}
}

func cancel(c *C, x *dk.X, o *dk.Ord, by, how int, p types.Address, granted bool) {
	c.Op("cancel [%v] by u%d how %d", o, by, how)
	c.State()
	if k, m := x.Cancel(o, by, how, p, granted); k != "" {
		c.Fail("C05/"+k, "%s", m)
	}
	check(c, x)
}

// unit is 10^decimals of the traded token.
func unit(t *dk.Tok) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.Dec)), nil)
}

func mul(a *big.Int, n int64) *big.Int { return new(big.Int).Mul(a, big.NewInt(n)) }

func newX(c *C) *dk.X {
	x := dk.New()
	x.W.Twice = true
	return x
}

// any explores one step of the limit book: an order of either user or a cancellation.
func step(c *C, x *dk.X, prices []string, qtys []int64, mi int) {
	m := x.Ms[mi]
	n := 2 * 2 * len(prices) * len(qtys)
	own := x.Open
	k := c.Choose(n + len(own))
	if k >= n {
		o := own[k-n]
		cancel(c, x, o, o.Owner, 0, types.Address{}, false)
		return
	}
	r := dk.Req{U: k % 2, M: mi, Sell: k/2%2 == 1, Price: prices[k/4%len(prices)], Qty: mul(unit(m.Trade), qtys[k/4/len(prices)])}
	place(c, x, r)
}

func main() {
	zero := types.Address{}
	Main(Suite{Property: "C05", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		depth, odd := 3, 3
		if !quick {
			depth, odd = 4, 4
		}
		few := func(q, t int) int {
			if quick {
				return q
			}
			return t
		}
		return []Scenario{
			{Name: "limit-book", Bound: fmt.Sprintf("every sequence of %d limit orders and cancellations by 2 users, 2 sides, 2 prices, 2 quantities", depth+1), Body: func(c *C) {
				x := newX(c)
				for i := 0; i <= depth; i++ {
					if i == 2 && !quick && c.Bool() {
						x.Tick(7)
					}
					step(c, x, []string{"60", "61"}, []int64{2, 3}[:1+i%2], 0)
				}
			}},
			{Name: "order-types", Bound: "each order type, side and size against each book of up to 3 resting orders", Body: func(c *C) {
				x := newX(c)
				sell := c.Bool()
				if c.Bool() {
					x.ConfigMarket(x.Ms[0], 50, 30)
				}
				pr := []string{"60", "61", "62"}
				if sell { // the taker sells: resting orders buy
					pr = []string{"62", "61", "60"}
				}
				n := 1 + c.Choose(few(2, 3))
				for i := 0; i < n; i++ {
					u := c.Choose(2)
					place(c, x, dk.Req{U: u, M: 0, Sell: !sell, Price: pr[c.Choose(2)], Qty: mul(unit(dk.T18), int64(2+i))})
				}
				if c.Bool() {
					x.MarketMax(1, vmkit.V(250))
				}
				r := dk.Req{U: c.Choose(2), M: 0, Sell: sell, Type: c.Choose(5), Price: pr[c.Choose(3)], Qty: mul(unit(dk.T18), []int64{2, 4, 9, 1, 20}[c.Choose(few(3, 5))])}
				if r.Type == dk.MarketOrder {
					r.Price = "0"
				}
				place(c, x, r)
				// whatever remained can be taken or given back
				for len(x.Open) > 0 {
					o := x.Open[0]
					cancel(c, x, o, o.Owner, 1, zero, false)
				}
			}},
			{Name: "rounding", Bound: fmt.Sprintf("%d orders of odd prices and quantities on 5 markets of different decimals, any sides and order types for the last", odd), Body: func(c *C) {
				x := newX(c)
				mi := c.Choose(len(x.Ms))
				m := x.Ms[mi]
				type pq struct {
					p string
					q *big.Int
				}
				u := unit(m.Trade)
				plus := func(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }
				l := []pq{{"0.333333333333", plus(mul(u, 700), 1)}, {"0.333333333334", plus(mul(u, 301), 0)}, {"7.7", plus(mul(u, 777), 7)}, {"0.333333333333", plus(mul(u, 1000), 13)}}
				if m.Quote == dk.BTC || m.Quote == dk.USD2 {
					l = []pq{{"0.000123456789", plus(mul(u, 12000), 3)}, {"0.000123456788", plus(mul(u, 9999), 0)}, {"0.017", plus(mul(u, 333), 1)}, {"0.000123456789", plus(mul(u, 40000), 17)}}
				}
				if k := c.Choose(few(2, 4)); k > 0 {
					if k < 3 {
						x.ConfigMarket(m, 33, 177)
					}
					if k != 2 {
						x.AllowMining(m)
					}
				}
				for i := 0; i < odd; i++ {
					e := l[c.Choose(few(3, 4))]
					typ := 0
					if i == odd-1 {
						typ = []int{0, 1, 3, 4}[c.Choose(few(2, 4))]
					}
					place(c, x, dk.Req{U: i % 2, M: mi, Sell: c.Bool(), Type: typ, Price: e.p, Qty: e.q})
				}
			}},
			{Name: "tiny", Bound: "orders whose remainder is worth less than one unit", Body: func(c *C) {
				x := newX(c)
				// a buyer of a token with 0 decimals for a cheap quote token, and the reverse
				mi := []int{1, 4}[c.Choose(2)]
				m := x.Ms[mi]
				x.W.Twice = false
				p := []string{"0.000000000001", "123.456789012345", "0.3", "2"}[c.Choose(4)]
				if p == "123.456789012345" {
					p = "123.456789"
				}
				first := c.Bool()
				q := []*big.Int{mul(unit(m.Trade), 1000), new(big.Int).Add(mul(unit(m.Trade), 1000), big.NewInt(1)), new(big.Int).Sub(mul(unit(m.Trade), 1000), big.NewInt(1)), mul(unit(m.Trade), 1000000)}
				place(c, x, dk.Req{U: 0, M: mi, Sell: first, Price: p, Qty: q[c.Choose(4)]})
				place(c, x, dk.Req{U: 1, M: mi, Sell: !first, Price: p, Qty: q[c.Choose(4)], Type: c.Choose(2)})
				place(c, x, dk.Req{U: c.Choose(2), M: mi, Sell: c.Bool(), Price: p, Qty: q[c.Choose(4)]})
			}},
			{Name: "fees", Bound: "every combination of taker and maker fee levels, invitations, operator rates, mining and stable markets", Body: func(c *C) {
				x := newX(c)
				mi := []int{0, 2, 3}[c.Choose(3)]
				m := x.Ms[mi]
				for u := 0; u < 2; u++ {
					if l := c.Choose(3); l > 0 {
						x.MakeVip(u, l)
					}
				}
				inv := c.Choose(4)
				if inv&1 != 0 {
					x.Invite(2, 0)
				}
				if inv&2 != 0 {
					x.Invite(2, 1)
				}
				op := [][2]int{{0, 0}, {200, 0}, {7, 133}, {200, 200}}[c.Choose(4)]
				if op[0]+op[1] > 0 {
					x.ConfigMarket(m, op[0], op[1])
				}
				switch c.Choose(3) {
				case 1:
					x.AllowMining(m)
				case 2:
					x.Stabilise(m)
				}
				side := c.Bool()
				price, q := "61.7", mul(unit(m.Trade), 31)
				if m.Quote == dk.BTC {
					price, q = "0.01537", mul(unit(m.Trade), 900)
				}
				place(c, x, dk.Req{U: 0, M: mi, Sell: side, Price: price, Qty: q})
				place(c, x, dk.Req{U: 1, M: mi, Sell: !side, Price: price, Qty: new(big.Int).Div(q, big.NewInt(3)), Type: c.Choose(2)})
				x.Tick(dk.Day)
				place(c, x, dk.Req{U: 1, M: mi, Sell: !side, Price: price, Qty: q})
			}},
			{Name: "market-buy", Bound: "market buys of a user with a limited balance through 1 to 3 resting orders on 5 markets, at and around the largest allowed amount", Body: func(c *C) {
				x := newX(c)
				mi := c.Choose(len(x.Ms))
				m := x.Ms[mi]
				ps := []string{"60", "61.7", "77.31", "101"}
				have := mul(unit(m.Quote), 500)
				u := unit(m.Trade)
				switch m.Quote {
				case dk.BTC:
					ps, have = []string{"0.000123456789", "0.00017", "0.0002"}, mul(unit(m.Quote), 1)
				case dk.USD2:
					ps = []string{"0.3", "0.33333333333", "7.77", "1"}
				}
				if op := c.Choose(few(2, 3)); op == 1 {
					x.ConfigMarket(m, 33, 177)
				} else if op == 2 {
					x.ConfigMarket(m, 200, 0)
				}
				x.Give(3, m.Quote, new(big.Int).Add(have, big.NewInt([]int64{0, 1, 37}[c.Choose(3)])))
				n := 1 + c.Choose(3)
				for i := 0; i < n; i++ {
					q := mul(u, int64(3+i))
					if m.Quote == dk.BTC {
						q = mul(u, int64(3000+i))
					} else if m.Quote == dk.USD2 {
						q = mul(u, int64(400+i))
					}
					if m.Trade.Dec > 0 {
						q.Add(q, big.NewInt(int64(i)))
					}
					place(c, x, dk.Req{U: i % 2, M: mi, Sell: true, Price: ps[i], Qty: q})
				}
				q := mul(u, 1000000)
				if c.Bool() {
					q = mul(u, 5)
				}
				r := dk.Req{U: 3, M: mi, Type: dk.MarketOrder, Price: "0", Qty: q}
				y := x.Clone()
				place(c, x, r)
				// the same order when the largest allowed amount is just below, at or just above what it takes
				if len(x.Txs) > 0 && m.Quote.Dec == map[int32]int32{1: 18, 3: 8, 4: 6}[m.Quote.Type] {
					got := new(big.Int).Sub(y.A(3, m.Quote).Av, x.A(3, m.Quote).Av)
					got.Sub(got, x.A(3, m.Quote).Lk)
					y.MarketMax(m.Quote.Type, new(big.Int).Add(got, big.NewInt([]int64{-1, 0, 1}[c.Choose(3)])))
					place(c, y, r)
				}
			}},
			{Name: "fee-limit", Bound: "a buy order filled in 3 to 5 parts of every combination of sizes whose rounded fees exceed the reserve", Body: func(c *C) {
				x := newX(c)
				m := x.Ms[4]
				op := [][2]int{{0, 0}, {200, 200}, {100, 130}, {30, 170}}[c.Choose(4)]
				if op[0] > 0 {
					x.ConfigMarket(m, op[0], op[1])
				}
				cents := func(n int64) *big.Int { return mul(new(big.Int).Exp(big.NewInt(10), big.NewInt(16), nil), n) }
				taker := c.Bool()
				buy := dk.Req{U: 0, M: 4, Price: "1", Qty: cents([]int64{1000, 2600}[c.Choose(2)])}
				if !taker {
					place(c, x, buy)
				}
				for i := 0; i < few(4, 5); i++ {
					place(c, x, dk.Req{U: 1, M: 4, Sell: true, Price: "1", Qty: cents([]int64{250, 375, 1600, 125, 251}[c.Choose(few(3, 5))])})
				}
				if taker {
					place(c, x, buy)
				}
			}},
			{Name: "self-trade", Bound: "one user against itself, all order types", Body: func(c *C) {
				x := newX(c)
				side := c.Bool()
				place(c, x, dk.Req{U: 0, M: 0, Sell: side, Price: "60", Qty: mul(unit(dk.T18), 3)})
				place(c, x, dk.Req{U: 0, M: 0, Sell: !side, Price: []string{"59", "60", "61"}[c.Choose(3)], Qty: mul(unit(dk.T18), []int64{2, 3, 4}[c.Choose(3)]), Type: c.Choose(5)})
			}},
			{Name: "long-book", Bound: "one order meeting 99, 100, 101 and 130 resting orders", Body: func(c *C) {
				x := newX(c)
				x.W.Twice = false
				n := []int{99, 100, 101, 130}[c.Choose(4)]
				side := c.Bool()
				for i := 0; i < n; i++ {
					r := dk.Req{U: 1 + i%2, M: 0, Sell: !side, Price: []string{"120", "121"}[i%2], Qty: mul(unit(dk.T18), 1)}
					if k, m := x.Place(r); k != "" {
						c.Fail("C05/"+k, "%s", m)
					}
				}
				check(c, x)
				p := "119"
				if !side {
					p = "122"
				}
				x.W.Twice = true
				place(c, x, dk.Req{U: 0, M: 0, Sell: side, Price: p, Type: c.Choose(5), Qty: mul(unit(dk.T18), []int64{100, 129, 131}[c.Choose(3)])})
			}},
			{Name: "cancel-rights", Bound: "every user cancelling every order by id, by transaction, and through the fund contract for every principal", Body: func(c *C) {
				x := newX(c)
				g := c.Bool()
				if g {
					x.Grant(0, 1, x.Ms[0], true)
					x.Grant(0, 2, x.Ms[1], true)
				}
				if g && c.Bool() {
					x.Grant(0, 1, x.Ms[0], false)
					g = false
				}
				for u := 0; u < 2; u++ {
					place(c, x, dk.Req{U: u, M: 0, Sell: true, Price: "60", Qty: mul(unit(dk.T18), 3)})
				}
				if c.Bool() {
					place(c, x, dk.Req{U: 2, M: 0, Price: "60", Qty: mul(unit(dk.T18), []int64{2, 4}[c.Choose(2)])})
				}
				all := append([]*dk.Ord{}, x.Open...)
				for i := 0; i < 2; i++ {
					o := all[c.Choose(len(all))]
					by := c.Choose(3)
					switch how := c.Choose(3); how {
					case 2:
						p := []types.Address{zero, dk.Users[0], dk.Users[1]}[c.Choose(3)]
						cancel(c, x, o, by, how, p, g && by == 1 && p == dk.Users[0])
					default:
						cancel(c, x, o, by, how, zero, false)
					}
				}
			}},
			{Name: "agents", Bound: "orders placed by every user for every other under granted, revoked and absent agent rights", Body: func(c *C) {
				x := newX(c)
				st := c.Choose(3)
				if st > 0 {
					x.Grant(0, 1, x.Ms[0], true)
				}
				if st == 2 {
					x.Grant(0, 1, x.Ms[0], false)
				}
				owner, by, mi := c.Choose(2), c.Choose(3), c.Choose(2)
				r := dk.Req{U: owner, M: mi, Sell: c.Bool(), Price: "120", Qty: mul(unit(x.Ms[mi].Trade), 3)}
				c.Op("%v by u%d state %d", r, by, st)
				c.State()
				may := owner == by || st == 1 && owner == 0 && by == 1 && mi == 0
				if !may {
					k := x.W.Call(dk.Users[by], types.AddressDexFund, vmkit.Vite, new(big.Int), dk.Fund("PlaceAgentOrder", dk.Users[owner], x.Ms[mi].Trade.ID, x.Ms[mi].Quote.ID, r.Sell, uint8(0), r.Price, r.Qty))
					if k.Bad != "" || k.OK && k.SendErr == nil {
						c.Fail("C05/agent", "u%d placed an order for u%d: %v", by, owner, k.Bad)
					}
					x.W.MustSettle()
				} else if k, m := x.PlaceBy(r, by); k != "" {
					c.Fail("C05/"+k, "%s", m)
				}
				check(c, x)
			}},
			{Name: "bad-orders", Bound: "boundary prices, quantities, types, markets, balances and stopped markets", Body: func(c *C) {
				x := newX(c)
				ps := []string{"", "0", "0.0", ".", "1.", ".5", "60", "060", "60.0", "-1", "1e3", "1.2.3", "999999999999", "1000000000000", "0.000000000001", "0.0000000000001", "60 ", "6O", "000000000060", "0000000000060", "60.100000000000", "60.1000000000000"}
				qs := []*big.Int{new(big.Int), big.NewInt(1), unit(dk.T18), mul(unit(dk.T18), 2), mul(unit(dk.T18), 1000000000), new(big.Int).Add(mul(unit(dk.T18), 1000000000), big.NewInt(1)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))}
				st := c.Choose(3)
				if st == 1 {
					x.Must(dk.Operator, dk.VITE, new(big.Int), "MarketAdminConfig", uint8(8), x.Ms[0].Trade.ID, x.Ms[0].Quote.ID, zero, int32(0), int32(0), true)
					x.Ms[0].Stopped = true
				} else if st == 2 {
					x.Must(dk.Admin, dk.VITE, new(big.Int), "DexAdminConfig", uint8(8), zero, zero, zero, true, zero, zero)
					x.Stopped = true
				}
				place(c, x, dk.Req{U: 0, M: c.Choose(2)*6 - 0, Sell: c.Bool(), Type: c.Choose(6), Price: ps[c.Choose(len(ps))], Qty: qs[c.Choose(len(qs))]})
			}},
			{Name: "threshold", Bound: "orders one unit below, at and above the smallest amount on every market", Body: func(c *C) {
				x := newX(c)
				mi := c.Choose(len(x.Ms))
				m := x.Ms[mi]
				var p string
				var q *big.Int
				switch m.Quote.Type {
				case 1:
					p, q = "1", mul(unit(m.Trade), 100)
				case 3:
					p, q = "0.0005", mul(unit(m.Trade), 1)
				case 4:
					p, q = "0.01", mul(unit(m.Trade), 100)
				}
				q = new(big.Int).Add(q, big.NewInt([]int64{-1, 0, 1}[c.Choose(3)]))
				if c.Bool() {
					x.MakeVip(0, 2)
				}
				place(c, x, dk.Req{U: 0, M: mi, Sell: c.Bool(), Price: p, Qty: q, Type: []int{0, 2, 4}[c.Choose(3)]})
			}},
			{Name: "price-codec", Bound: "all pairs of prices out of a boundary set: exact round trip, order kept", Body: func(c *C) {
				ds := []string{"0", "1", "9", "10", "99", "255", "256", "65535", "65536", "4294967295", "4294967296", "99999999999", "100000000000", "999999999999"}
				frac := []string{"", "1", "000000000001", "5", "499999999999", "500000000001", "999999999999", "99999999999", "0001", "256", "065536"}
				mk := func(i int) string {
					a, b := ds[i/len(frac)], frac[i%len(frac)]
					if b != "" {
						a += "." + b
					}
					return a
				}
				n := len(ds) * len(frac)
				i := c.Choose(n)
				p := mk(i)
				if !dk.ValidPrice(p) {
					return
				}
				rp, _ := new(big.Rat).SetString(p)
				bp := dex.PriceToBytes(p)
				if s := dex.BytesToPrice(bp); s != dk.Norm(p) {
					c.Fail("C05/price", "price %s is read back as %s", p, s)
				}
				for j := 0; j < n; j++ {
					q := mk(j)
					if !dk.ValidPrice(q) {
						continue
					}
					c.State()
					rq, _ := new(big.Rat).SetString(q)
					bq := dex.PriceToBytes(q)
					cmp := 0
					for k := range bp {
						if bp[k] != bq[k] {
							cmp = 1
							if bp[k] < bq[k] {
								cmp = -1
							}
							break
						}
					}
					if len(bp) != len(bq) || cmp != rp.Cmp(rq) {
						c.Fail("C05/price", "prices %s and %s compare %d", p, q, cmp)
					}
				}
			}},
		}
	}, Assumptions: []string{"all network upgrades active", "exchange time advances as its oracle says; order expiry is switched off from exchange version 11", "amounts are computed in 120-bit floating point and rounded half up, as the exchange documents them"}})
}
