// Package dexkit sets up the exchange on the VM kit through its real requests and holds an independent
// order book that predicts every account, order and fee.
package dexkit

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

const Day = 86400

// Users 0..3 trade; 4 owns the tokens and operates the markets; 5 administers the exchange.
var Users = []types.Address{vmkit.User(1), vmkit.User(2), vmkit.User(3), vmkit.User(4), vmkit.User(5), vmkit.User(6)}

const (
	Operator = 4
	Admin    = 5
)

// Tok is a token of the model exchange.
type Tok struct {
	ID   types.TokenTypeId
	Sym  string
	Dec  int32
	Type int32 // quote type, 0: not a quote token
}

func tid(n byte) types.TokenTypeId {
	t, err := types.BytesToTokenTypeId([]byte{n, n, n, n, n, n, n, n, n, n})
	if err != nil {
		panic(err)
	}
	return t
}

var (
	VITE = &Tok{vmkit.Vite, "VITE", 18, 1}
	VX   = &Tok{dex.VxTokenId, "VX", 18, 0}
	T18  = &Tok{tid(0x31), "AAA", 18, 0}
	T0   = &Tok{tid(0x32), "BBB", 0, 0}
	T8   = &Tok{tid(0x33), "CCC", 8, 0}
	USD  = &Tok{tid(0x41), "USD", 6, 4}
	BTC  = &Tok{tid(0x42), "BTC", 18, 3} // more decimals than its type has
	USD2 = &Tok{tid(0x43), "DOL", 2, 4}  // fewer
	Toks = []*Tok{VITE, VX, T18, T0, T8, USD, BTC, USD2}
)

// Market is one trading pair.
type Market struct {
	Trade, Quote *Tok
	ID           int32
	TakerOp      int
	MakerOp      int
	Mining       bool
	Stable       bool
	Stopped      bool
}

type reader struct{ genesis time.Time }

func (r *reader) DayStats(a, b uint64) ([]*core.DayStats, error) { return nil, nil }
func (r *reader) GetDayTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(r.genesis, 24*time.Hour)
}

// Fund packs a request to the fund contract.
func Fund(name string, a ...interface{}) []byte {
	d, err := abi.ABIDexFund.PackMethod(name, a...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}

// Trade packs a request to the trade contract.
func Trade(name string, a ...interface{}) []byte {
	d, err := abi.ABIDexTrade.PackMethod(name, a...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}

// X is an exchange with its model.
type X struct {
	W       *vmkit.World
	Genesis int64
	Now     int64 // exchange time
	Ms      []*Market
	Acc     []map[*Tok]*Acc
	Vip     []int // 0, 1 VIP, 2 SVIP
	Inviter []int // -1 none
	Open    []*Ord
	serial  int
	lastTs  int64
	Fees    map[uint64]map[*Tok]*big.Int // dividend pool by period
	OpFees  map[string]*big.Int          // period/market
	UserFee map[string]*[2]*big.Int      // period/user/type -> base, bonus
	MinAmt  map[int32]*big.Int
	MineMin map[int32]*big.Int
	MktMax  map[int32]*big.Int
	Txs     []string // transactions of the last order
	Evs     []string // what happened to the orders
	Stopped bool
	Code    map[int]uint32
	fund
}

// Acc is a user's account in one token.
type Acc struct{ Av, Lk, VL, VU, CS *big.Int }

func newAcc() *Acc { return &Acc{z(), z(), z(), z(), z()} }

// Ord is an order as its owner understands it.
type Ord struct {
	Hash                  types.Hash
	Owner                 int
	M                     *Market
	Sell                  bool
	Type                  int
	Price                 string
	P                     *big.Rat
	Ts                    int64
	No                    int
	Qty, Amt, Fee         *big.Int
	XQty, XAmt, XFee, XOp *big.Int
	TF, TO, MF, MO        int
	Status, Reason        int
	Max                   *big.Int
	done                  bool
}

func (o *Ord) String() string {
	side := "buy"
	if o.Sell {
		side = "sell"
	}
	return fmt.Sprintf("u%d %s type%d %s@%s on %s/%s executed %s/%s", o.Owner, side, o.Type, o.Qty, o.Price, o.M.Trade.Sym, o.M.Quote.Sym, o.XQty, o.XAmt)
}

func z() *big.Int { return new(big.Int) }
func cp(a *big.Int) *big.Int {
	return new(big.Int).Set(a)
}
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func min(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return cp(a)
	}
	return cp(b)
}

// Clone copies world and model.
func (x *X) Clone() *X {
	n := *x
	n.W = x.W.Clone()
	n.Ms = nil
	mm := map[*Market]*Market{}
	for _, m := range x.Ms {
		c := *m
		mm[m] = &c
		n.Ms = append(n.Ms, &c)
	}
	n.Acc = nil
	for _, a := range x.Acc {
		c := map[*Tok]*Acc{}
		for k, v := range a {
			c[k] = &Acc{cp(v.Av), cp(v.Lk), cp(v.VL), cp(v.VU), cp(v.CS)}
		}
		n.Acc = append(n.Acc, c)
	}
	n.Vip = append([]int{}, x.Vip...)
	n.Inviter = append([]int{}, x.Inviter...)
	n.Open = nil
	for _, o := range x.Open {
		c := *o
		c.M = mm[o.M]
		n.Open = append(n.Open, &c)
	}
	n.Fees = map[uint64]map[*Tok]*big.Int{}
	for p, l := range x.Fees {
		n.Fees[p] = map[*Tok]*big.Int{}
		for k, v := range l {
			n.Fees[p][k] = cp(v)
		}
	}
	n.OpFees = map[string]*big.Int{}
	for k, v := range x.OpFees {
		n.OpFees[k] = cp(v)
	}
	n.UserFee = map[string]*[2]*big.Int{}
	for k, v := range x.UserFee {
		n.UserFee[k] = &[2]*big.Int{cp(v[0]), cp(v[1])}
	}
	mp := func(a map[int32]*big.Int) map[int32]*big.Int {
		b := map[int32]*big.Int{}
		for k, v := range a {
			b[k] = v
		}
		return b
	}
	n.MinAmt, n.MineMin, n.MktMax = mp(x.MinAmt), mp(x.MineMin), mp(x.MktMax)
	n.Code = map[int]uint32{}
	for k, v := range x.Code {
		n.Code[k] = v
	}
	n.Txs = nil
	n.fund = x.fund.clone()
	return &n
}

// A returns the account of a user.
func (x *X) A(u int, t *Tok) *Acc {
	a := x.Acc[u][t]
	if a == nil {
		a = newAcc()
		x.Acc[u][t] = a
	}
	return a
}

// Period of the exchange time.
func (x *X) Period() uint64 { return uint64((x.Now - x.Genesis) / Day) }

var typeDec = map[int32]int32{1: 18, 2: 18, 3: 8, 4: 6}

// must runs a request that has to succeed, settles everything and dies otherwise.
func (x *X) must(u int, to types.Address, tok *Tok, amt *big.Int, data []byte) {
	k := x.W.Call(Users[u], to, tok.ID, amt, data)
	if k.Bad != "" || k.SendErr != nil || !k.OK {
		var e error
		if k.Recv != nil {
			e = k.Recv.Err
		}
		panic(fmt.Sprintf("exchange setup: request of user %d failed: %v %v %v", u, k.Bad, k.SendErr, e))
	}
	if s := x.W.MustSettle(); s != "" {
		panic("exchange setup: " + s)
	}
}

// Must runs a request to the fund contract that has to succeed.
func (x *X) Must(u int, tok *Tok, amt *big.Int, name string, a ...interface{}) {
	x.must(u, types.AddressDexFund, tok, amt, Fund(name, a...))
}

var base *X

// New returns an exchange with the given markets; every trader has plenty of everything deposited.
func New() *X {
	if base == nil {
		base = build()
	}
	return base.Clone()
}

var zt types.TokenTypeId
var za types.Address

func build() *X {
	vmkit.Init(nil)
	w := vmkit.New()
	g := *w.SBs[0].Timestamp
	w.Reader = util.NewVMConsensusReader(&reader{g})
	dex.InitFundOwner(Users[Admin])
	x := &X{W: w, Genesis: g.Unix(), Fees: map[uint64]map[*Tok]*big.Int{}, OpFees: map[string]*big.Int{}, UserFee: map[string]*[2]*big.Int{}, Code: map[int]uint32{}}
	x.fund = newFund()
	x.MinAmt = map[int32]*big.Int{1: vmkit.V(100), 2: new(big.Int).Div(vmkit.V(1), big.NewInt(100)), 3: big.NewInt(50000), 4: big.NewInt(1000000)}
	x.MineMin = map[int32]*big.Int{1: vmkit.V(2), 2: new(big.Int).Div(vmkit.V(1), big.NewInt(5000)), 3: big.NewInt(1000), 4: big.NewInt(20000)}
	x.MktMax = map[int32]*big.Int{1: vmkit.V(8000000), 2: vmkit.V(200), 3: big.NewInt(1000000000), 4: big.NewInt(100000000000)}
	for _, t := range Toks {
		owner := Users[Operator]
		ti, err := abi.ABIAsset.PackVariable(abi.VariableNameTokenInfo, t.Sym+" token", t.Sym, vmkit.V(1000000000), uint8(t.Dec), owner, true, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), false, uint16(0))
		if err != nil {
			panic(err)
		}
		w.Mut(types.AddressAsset).Stor[string(abi.GetTokenInfoKey(t.ID))] = ti
	}
	for range Users {
		x.Acc = append(x.Acc, map[*Tok]*Acc{})
		x.Vip = append(x.Vip, 0)
		x.Inviter = append(x.Inviter, -1)
	}
	x.Must(Admin, VITE, z(), "DexAdminConfig", uint8(2|4|16|32), za, Users[Admin], Users[Admin], false, Users[Admin], Users[Admin])
	x.Now = x.Genesis + Day + 1000
	x.Must(Admin, VITE, z(), "NotifyTime", x.Now)
	x.Fees[x.Period()] = map[*Tok]*big.Int{VITE: z()}
	for _, t := range Toks {
		if t.Type > 0 {
			x.Must(Admin, VITE, z(), "TradeAdminConfig", uint8(2), zt, zt, false, t.ID, uint8(t.Type), uint8(0), z(), uint8(0), z())
		}
	}
	for i, p := range [][2]*Tok{{T18, VITE}, {T0, VITE}, {T18, USD}, {T8, BTC}, {T18, USD2}} {
		w.SetBal(Users[Operator], VITE.ID, vmkit.V(10000))
		x.Must(Operator, VITE, vmkit.V(10000), "Deposit")
		x.Must(Operator, VITE, z(), "OpenNewMarket", p[0].ID, p[1].ID)
		m := &Market{Trade: p[0], Quote: p[1], ID: int32(i + 1)}
		x.Ms = append(x.Ms, m)
		x.fee(x.Period(), VITE, vmkit.V(10000))
		x.userFee(x.Period(), Operator, 1, vmkit.V(1000), z())
	}
	for u := 0; u < 3; u++ { // user 3 has nothing yet
		for _, t := range Toks {
			amt := new(big.Int).Mul(big.NewInt(1000000000), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.Dec)), nil))
			x.Give(u, t, amt)
		}
	}
	return x
}

// Give mints tokens outside the exchange and deposits them.
func (x *X) Give(u int, t *Tok, amt *big.Int) {
	x.W.SetBal(Users[u], t.ID, add(x.W.Bal(Users[u], t.ID), amt))
	x.Must(u, t, amt, "Deposit")
	x.A(u, t).Av.Add(x.A(u, t).Av, amt)
}

// ConfigMarket sets the operator's rates.
func (x *X) ConfigMarket(m *Market, taker, maker int) {
	x.Must(Operator, VITE, z(), "MarketAdminConfig", uint8(6), m.Trade.ID, m.Quote.ID, za, int32(taker), int32(maker), false)
	m.TakerOp, m.MakerOp = taker, maker
}

// AllowMining lets trading fees of the market count for mining.
func (x *X) AllowMining(m *Market) {
	x.Must(Admin, VITE, z(), "TradeAdminConfig", uint8(1), m.Trade.ID, m.Quote.ID, true, zt, uint8(0), uint8(0), z(), uint8(0), z())
	m.Mining = true
}

// MarketMax sets the largest amount a market order may take.
func (x *X) MarketMax(typ int32, v *big.Int) {
	x.Must(Admin, VITE, z(), "CommonAdminConfig", uint8(2), zt, zt, false, typ, v, za)
	x.MktMax[typ] = v
}

// Tick advances the exchange time.
func (x *X) Tick(d int64) {
	old := x.Period()
	x.Now += d
	x.Must(Admin, VITE, z(), "NotifyTime", x.Now)
	if x.Period() != old {
		x.Roll(old, x.Period())
	}
}

// Roll starts a new period: everything but the part to be paid out is carried over, VITE is paid out in full.
func (x *X) Roll(old, p uint64) {
	x.Fees[p] = map[*Tok]*big.Int{}
	first := true
	for q := range x.Fees {
		if q < old {
			first = false
		}
	}
	for t, v := range x.Fees[old] {
		c := sub(v, rate(v, 1000))
		if t == VITE && !first {
			c = z()
		}
		x.Fees[p][t] = c
	}
}

func (x *X) fee(p uint64, t *Tok, v *big.Int) {
	if x.Fees[p] == nil {
		x.Fees[p] = map[*Tok]*big.Int{}
	}
	if x.Fees[p][t] == nil {
		x.Fees[p][t] = z()
	}
	x.Fees[p][t].Add(x.Fees[p][t], v)
}

func (x *X) userFee(p uint64, u int, typ int32, baseAmt, bonus *big.Int) {
	k := fmt.Sprintf("%d/%d/%d", p, u, typ)
	if x.UserFee[k] == nil {
		x.UserFee[k] = &[2]*big.Int{z(), z()}
	}
	x.UserFee[k][0].Add(x.UserFee[k][0], baseAmt)
	x.UserFee[k][1].Add(x.UserFee[k][1], bonus)
}

// rate takes rate/100000 of an amount, rounded half up in 120-bit arithmetic.
func rate(a *big.Int, r int) *big.Int {
	if r <= 0 {
		return z()
	}
	f, _ := new(big.Float).SetPrec(120).SetString(fmt.Sprintf("0.%05d", r))
	f.Mul(f, new(big.Float).SetPrec(120).SetInt(a))
	return round(f)
}

func round(f *big.Float) *big.Int {
	v, _ := new(big.Float).SetPrec(120).Add(f, big.NewFloat(0.5)).Int(nil)
	return v
}

func scale(f *big.Float, diff int32) *big.Float {
	if diff == 0 {
		return f
	}
	d := diff
	if d < 0 {
		d = -d
	}
	e := new(big.Float).SetPrec(120).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil))
	if diff > 0 {
		return f.Quo(f, e)
	}
	return f.Mul(f, e)
}

func price(s string) *big.Float {
	f, ok := new(big.Float).SetPrec(120).SetString(s)
	if !ok {
		panic("bad price " + s)
	}
	return f
}

// amountF is quantity times price in units of the quote token.
func amountF(m *Market, q *big.Int, p string) *big.Float {
	f := new(big.Float).SetPrec(120).Mul(price(p), new(big.Float).SetPrec(120).SetInt(q))
	return scale(f, m.Trade.Dec-m.Quote.Dec)
}

func quantityF(m *Market, a *big.Int, p string) *big.Float {
	f := new(big.Float).SetPrec(120).Quo(new(big.Float).SetPrec(120).SetInt(a), price(p))
	return scale(f, m.Quote.Dec-m.Trade.Dec)
}

func adjust(a *big.Int, diff int32) *big.Int {
	return round(scale(new(big.Float).SetPrec(120).SetInt(a), diff))
}

// Norm is the canonical spelling of a price.
func Norm(p string) string {
	i := strings.IndexByte(p, '.')
	ip, dp := p, ""
	if i >= 0 {
		ip, dp = p[:i], p[i+1:]
	}
	ip = strings.TrimLeft(ip, "0")
	dp = strings.TrimRight(dp, "0")
	if ip == "" {
		ip = "0"
	}
	if dp == "" {
		return ip
	}
	return ip + "." + dp
}

// ValidPrice tells whether a price is a positive decimal with at most 12 digits on each side.
func ValidPrice(p string) bool {
	if strings.Count(p, ".") > 1 {
		return false
	}
	for i := 0; i < len(p); i++ {
		if p[i] != '.' && (p[i] < '0' || p[i] > '9') {
			return false
		}
	}
	i := strings.IndexByte(p, '.')
	ip, dp := p, ""
	if i >= 0 {
		ip, dp = p[:i], p[i+1:]
	}
	if len(ip)+len(dp) == 0 || len(ip) > 12 || len(dp) > 12 {
		return false
	}
	return strings.Trim(ip+dp, "0") != ""
}

func (x *X) rates(o *Ord) {
	if o.M.Stable {
		return
	}
	b := 200
	if x.Vip[o.Owner] == 2 {
		b = 0
	} else if x.Vip[o.Owner] == 1 {
		b = 100
	}
	o.TF, o.MF, o.TO, o.MO = b, b, o.M.TakerOp, o.M.MakerOp
	if x.Inviter[o.Owner] >= 0 {
		o.TF, o.MF, o.TO, o.MO = o.TF*9/10, o.MF*9/10, o.TO*9/10, o.MO*9/10
	}
}

func (o *Ord) maxRate() int {
	a, b := o.TF+o.TO, o.MF+o.MO
	if a > b {
		return a
	}
	return b
}

const (
	Limit = iota
	MarketOrder
	PostOnly
	FillOrKill
	IOC
)

// Req is a request to place an order.
type Req struct {
	U     int
	M     int
	Sell  bool
	Type  int
	Price string
	Qty   *big.Int
}

func (r Req) String() string {
	s := "buy"
	if r.Sell {
		s = "sell"
	}
	return fmt.Sprintf("u%d %s type%d %s@%s m%d", r.U, s, r.Type, r.Qty, r.Price, r.M)
}

// predict applies an order to the model; it returns whether the exchange must accept it.
func (x *X) predict(r Req) bool {
	x.Txs, x.Evs = nil, nil
	if r.M < 0 || r.M >= len(x.Ms) || x.Stopped || x.Ms[r.M].Stopped {
		return false
	}
	m := x.Ms[r.M]
	o := &Ord{Owner: r.U, M: m, Sell: r.Sell, Type: r.Type, Price: r.Price, Qty: cp(r.Qty), Amt: z(), Fee: z(), XQty: z(), XAmt: z(), XFee: z(), XOp: z(), Ts: x.Now, Max: z()}
	x.rates(o)
	if r.Type != MarketOrder {
		o.Price = Norm(r.Price)
		o.P, _ = new(big.Rat).SetString(o.Price)
	}
	small := func(a *big.Int) bool {
		if d := m.Quote.Dec - typeDec[m.Quote.Type]; d != 0 {
			a = adjust(a, d)
		}
		return a.Cmp(x.MinAmt[m.Quote.Type]) < 0
	}
	if r.Type != MarketOrder {
		o.Amt = round(amountF(m, o.Qty, o.Price))
		if !o.Sell {
			o.Fee = rate(o.Amt, o.maxRate())
		}
		if small(add(o.Amt, o.Fee)) {
			return false
		}
	}
	var lock *big.Int
	lt := m.Quote
	if o.Sell {
		lt, lock = m.Trade, cp(o.Qty)
	} else if r.Type != MarketOrder {
		lock = add(o.Amt, o.Fee)
	} else {
		lock = cp(x.A(o.Owner, lt).Av)
		if small(lock) {
			return false
		}
		o.Amt = cp(lock)
	}
	a := x.A(o.Owner, lt)
	if a.Av.Cmp(lock) < 0 {
		return false
	}
	if r.Type == MarketOrder {
		o.Max = adjust(x.MktMax[m.Quote.Type], typeDec[m.Quote.Type]-m.Quote.Dec)
		if !o.Sell && o.maxRate() > 0 {
			fr := o.maxRate()
			o.Fee = rate(o.Amt, fr*100000/(100000+fr)+1)
			o.Amt.Sub(o.Amt, o.Fee)
		}
	}
	a.Av.Sub(a.Av, lock)
	a.Lk.Add(a.Lk, lock)
	if x.lastTs == x.Now {
		x.serial++
	} else {
		x.serial = 0
	}
	x.lastTs = x.Now
	o.No = x.serial
	x.match(o)
	return true
}

func (x *X) before(a, b *Ord) bool {
	if c := a.P.Cmp(b.P); c != 0 {
		if a.Sell {
			return c < 0
		}
		return c > 0
	}
	if a.Ts != b.Ts {
		return a.Ts < b.Ts
	}
	return a.No < b.No
}

// Book lists the open orders of one side in the order they are served.
func (x *X) Book(m *Market, sell bool) []*Ord {
	var l []*Ord
	for _, o := range x.Open {
		if o.M == m && o.Sell == sell {
			l = append(l, o)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return x.before(l[i], l[j]) })
	return l
}

type fill struct {
	maker                  *Ord
	qty, amt               *big.Int
	tf, to, mf, mo         *big.Int
	makerFull, takerFull   bool
	mQty, mAmt, mFee, mOp  *big.Int
	takerOwner, makerOwner int
}

func (o *Ord) charge(amt *big.Int, base, op int) (f, g *big.Int) {
	f, g = z(), z()
	take := func(r int) (*big.Int, bool) {
		if r == 0 {
			return z(), true
		}
		v := rate(amt, r)
		if o.Sell {
			return v, true
		}
		left := sub(sub(sub(o.Fee, o.XFee), o.XOp), f)
		if left.Sign() <= 0 {
			return z(), false
		}
		if v.Cmp(left) >= 0 {
			return left, false
		}
		return v, true
	}
	var more bool
	f, more = take(base)
	if more {
		fb := f
		f = z()
		o.XFee = add(o.XFee, fb) // the base fee counts as used when the operator's share is computed
		g, _ = take(op)
		o.XFee = sub(o.XFee, fb)
		f = fb
	}
	return
}

func (x *X) match(t *Ord) {
	m := t.M
	sv := *t
	var fills []fill
	for _, k := range x.Book(m, !t.Sell) {
		if t.Type != MarketOrder {
			c := t.P.Cmp(k.P)
			if !t.Sell && c < 0 || t.Sell && c > 0 {
				break
			}
		}
		if t.Type == PostOnly {
			t.Status, t.Reason = 3, 7
			break
		}
		tq := sub(t.Qty, t.XQty)
		if t.Type == MarketOrder && !t.Sell {
			q, _ := quantityF(m, sub(t.Amt, t.XAmt), k.Price).Int(nil)
			tq = min(tq, q)
		}
		q := min(tq, sub(k.Qty, k.XQty))
		a := round(amountF(m, q, k.Price))
		for _, b := range []*Ord{t, k} {
			if !b.Sell {
				a = min(a, sub(b.Amt, b.XAmt))
			}
		}
		f := fill{maker: k, qty: q, amt: a}
		kc := *k // fees and limits of the maker before this fill
		f.tf, f.to = t.charge(a, t.TF, t.TO)
		f.mf, f.mo = kc.charge(a, k.MF, k.MO)
		full := func(b *Ord) bool {
			if sub(b.Qty, b.XQty).Cmp(q) == 0 {
				return true
			}
			one := big.NewFloat(1)
			if b.Type != MarketOrder {
				return amountF(m, sub(sub(b.Qty, b.XQty), q), b.Price).Cmp(one) < 0
			}
			if b.Sell {
				return false
			}
			left := sub(sub(b.Amt, b.XAmt), a)
			return left.Sign() == 0 || quantityF(m, left, k.Price).Cmp(one) < 0
		}
		f.takerFull, f.makerFull = full(t), full(k)
		t.XQty, t.XAmt, t.XFee, t.XOp = add(t.XQty, q), add(t.XAmt, a), add(t.XFee, f.tf), add(t.XOp, f.to)
		fills = append(fills, f)
		t.Status = 1
		if f.takerFull {
			t.Status = 2
			break
		}
		if len(fills) >= 100 {
			t.Status, t.Reason = 3, 4
			break
		}
	}
	if t.Type == MarketOrder && add(add(t.XAmt, t.XFee), t.XOp).Cmp(t.Max) > 0 {
		*t = sv
		t.Status, t.Reason, fills = 3, 9, nil
	} else if t.Status < 2 {
		switch t.Type {
		case MarketOrder, IOC:
			t.Status, t.Reason = 3, 1
		case FillOrKill:
			*t = sv
			t.Status, t.Reason, fills = 3, 8, nil
		}
	}
	p := x.Period()
	type fees struct{ b, o *big.Int }
	paid := map[int]*fees{}
	pay := func(u int, b, o *big.Int) {
		if paid[u] == nil {
			paid[u] = &fees{z(), z()}
		}
		paid[u].b.Add(paid[u].b, b)
		paid[u].o.Add(paid[u].o, o)
	}
	for _, f := range fills {
		k := f.maker
		k.XQty, k.XAmt, k.XFee, k.XOp = add(k.XQty, f.qty), add(k.XAmt, f.amt), add(k.XFee, f.mf), add(k.XOp, f.mo)
		k.Status = 1
		give := func(o *Ord, fee *big.Int) {
			if o.Sell {
				x.A(o.Owner, m.Trade).Lk.Sub(x.A(o.Owner, m.Trade).Lk, f.qty)
				x.A(o.Owner, m.Quote).Av.Add(x.A(o.Owner, m.Quote).Av, sub(f.amt, fee))
			} else {
				x.A(o.Owner, m.Quote).Lk.Sub(x.A(o.Owner, m.Quote).Lk, add(f.amt, fee))
				x.A(o.Owner, m.Trade).Av.Add(x.A(o.Owner, m.Trade).Av, f.qty)
			}
		}
		give(t, add(f.tf, f.to))
		give(k, add(f.mf, f.mo))
		pay(t.Owner, f.tf, f.to)
		pay(k.Owner, f.mf, f.mo)
		x.Txs = append(x.Txs, fmt.Sprintf("sell=%v maker %d/%d: %s at %s for %s, fees %s+%s %s+%s", t.Sell, k.Ts, k.No, f.qty, k.Price, f.amt, f.tf, f.to, f.mf, f.mo))
		if f.makerFull {
			k.Status = 2
			x.refund(k)
		}
		x.Evs = append(x.Evs, "update "+x.ev(k))
	}
	if len(fills) > 0 {
		sumB, sumO := z(), z()
		for u, v := range paid {
			sumB.Add(sumB, v.b)
			sumO.Add(sumO, v.o)
			if m.Mining {
				norm := func(a *big.Int) *big.Int { return adjust(a, m.Quote.Dec-typeDec[m.Quote.Type]) }
				if x.Inviter[u] >= 0 {
					x.userFee(p, u, m.Quote.Type, norm(v.b), norm(rate(v.b, 2500)))
					x.userFee(p, x.Inviter[u], m.Quote.Type, z(), norm(rate(v.b, 5000)))
				} else {
					x.userFee(p, u, m.Quote.Type, norm(v.b), z())
				}
			}
		}
		x.fee(p, m.Quote, sumB)
		if sumO.Sign() > 0 {
			k := fmt.Sprintf("%d/%d", p, m.ID)
			if x.OpFees[k] == nil {
				x.OpFees[k] = z()
			}
			x.OpFees[k].Add(x.OpFees[k], sumO)
		}
	}
	if t.Status >= 2 {
		x.refund(t)
	} else {
		x.Open = append(x.Open, t)
	}
	x.Evs = append([]string{fmt.Sprintf("new u%d type %d sell %v %s at %s: ", t.Owner, t.Type, t.Sell, t.Qty, t.Price) + x.ev(t)}, x.Evs...)
	t.done = t.Status >= 2
}

// ev is what the exchange announces about an order.
func (x *X) ev(o *Ord) string {
	ref := z()
	if o.Status >= 2 {
		ref = sub(sub(sub(add(o.Amt, o.Fee), o.XAmt), o.XFee), o.XOp)
		if o.Sell {
			ref = sub(o.Qty, o.XQty)
		}
	}
	return fmt.Sprintf("%d/%d status %d/%d executed %s for %s fees %s+%s refund %s", o.Ts, o.No, o.Status, o.Reason, o.XQty, o.XAmt, o.XFee, o.XOp, ref)
}

// refund unlocks what an order did not use and removes it.
func (x *X) refund(o *Ord) {
	t, v := o.M.Quote, sub(sub(sub(add(o.Amt, o.Fee), o.XAmt), o.XFee), o.XOp)
	if o.Sell {
		t, v = o.M.Trade, sub(o.Qty, o.XQty)
	}
	a := x.A(o.Owner, t)
	a.Av.Add(a.Av, v)
	a.Lk.Sub(a.Lk, v)
	for i, y := range x.Open {
		if y == o {
			x.Open = append(append([]*Ord{}, x.Open[:i]...), x.Open[i+1:]...)
			break
		}
	}
}

// MakeVip stakes for the VIP (1) or SVIP (2) rates.
func (x *X) MakeVip(u, level int) {
	n, amt := "StakeForVIP", vmkit.V(10000)
	if level == 2 {
		n, amt = "StakeForSVIP", vmkit.V(1000000)
	}
	x.Must(u, VITE, z(), n, uint8(1))
	x.A(u, VITE).Av.Sub(x.A(u, VITE).Av, amt)
	x.Vip[u] = level
}

// Invite makes u an inviter and v its invitee.
func (x *X) Invite(u, v int) {
	if x.Code[u] == 0 {
		x.Must(u, VITE, z(), "CreateNewInviter")
		x.A(u, VITE).Av.Sub(x.A(u, VITE).Av, vmkit.V(100))
		x.fee(x.Period(), VITE, vmkit.V(100))
		x.Code[u] = dex.GetCodeByInviter(x.W.NewDb(types.AddressDexFund), Users[u])
	}
	x.Must(v, VITE, z(), "BindInviteCode", x.Code[u])
	x.Inviter[v] = u
}

// Stabilise makes a market one without fees.
func (x *X) Stabilise(m *Market) {
	x.Must(Admin, VITE, z(), "CommonAdminConfig", uint8(1), m.Trade.ID, m.Quote.ID, true, int32(0), z(), za)
	m.Stable = true
}

// Grant lets by trade for u on a market.
func (x *X) Grant(u, by int, m *Market, on bool) {
	t := uint8(1)
	if !on {
		t = 2
	}
	x.Must(u, VITE, z(), "ConfigMarketAgents", t, Users[by], []types.TokenTypeId{m.Trade.ID}, []types.TokenTypeId{m.Quote.ID})
}
