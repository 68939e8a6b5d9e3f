package dexkit

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

// Kinds of stakes.
const (
	ForMining = iota
	ForVIP
	ForSVIP
	ForOther
)

// Stk is a stake made through the exchange.
type Stk struct {
	ID         types.Hash
	Kind       int
	Owner, For int
	Amt        *big.Int
	Due        uint64
	Gone       bool
}

type due struct {
	p   uint64
	amt *big.Int
}

// fund is the model of everything but orders.
type fund struct {
	Paid, Mined      map[uint64]bool
	Pool             *big.Int
	Normal           bool   // normal mining has started
	First            uint64 // first period mined normally
	Burnt            *big.Int
	Maker            map[uint64]*big.Int
	Stakes           []*Stk
	vip, svip        map[int]int // number of running stakes
	vx, ms           map[int]map[uint64]*big.Int
	unlocks, returns map[int][]due
	last             map[uint8]uint64
	Auto             map[int]bool
	settledP         uint64
	settledPg        int32
}

func newFund() fund {
	return fund{Paid: map[uint64]bool{}, Mined: map[uint64]bool{}, Pool: z(), Burnt: z(), Maker: map[uint64]*big.Int{}, vip: map[int]int{}, svip: map[int]int{}, vx: map[int]map[uint64]*big.Int{}, ms: map[int]map[uint64]*big.Int{}, unlocks: map[int][]due{}, returns: map[int][]due{}, last: map[uint8]uint64{}, Auto: map[int]bool{}}
}

func (f fund) clone() fund {
	n := newFund()
	for k, v := range f.Paid {
		n.Paid[k] = v
	}
	for k, v := range f.Mined {
		n.Mined[k] = v
	}
	n.Pool, n.Normal, n.First, n.Burnt = cp(f.Pool), f.Normal, f.First, cp(f.Burnt)
	for k, v := range f.Maker {
		n.Maker[k] = cp(v)
	}
	for _, s := range f.Stakes {
		c := *s
		n.Stakes = append(n.Stakes, &c)
	}
	for k, v := range f.vip {
		n.vip[k] = v
	}
	for k, v := range f.svip {
		n.svip[k] = v
	}
	h := func(a map[int]map[uint64]*big.Int) map[int]map[uint64]*big.Int {
		r := map[int]map[uint64]*big.Int{}
		for u, l := range a {
			r[u] = map[uint64]*big.Int{}
			for k, v := range l {
				r[u][k] = cp(v)
			}
		}
		return r
	}
	n.vx, n.ms = h(f.vx), h(f.ms)
	d := func(a map[int][]due) map[int][]due {
		r := map[int][]due{}
		for u, l := range a {
			r[u] = append([]due{}, l...)
		}
		return r
	}
	n.unlocks, n.returns = d(f.unlocks), d(f.returns)
	for k, v := range f.last {
		n.last[k] = v
	}
	for k, v := range f.Auto {
		n.Auto[k] = v
	}
	n.settledP, n.settledPg = f.settledP, f.settledPg
	return n
}

// at is the amount in force at the end of a period.
func at(h map[uint64]*big.Int, p uint64) *big.Int {
	best, v := uint64(0), z()
	for k, a := range h {
		if k <= p && k >= best {
			best, v = k, a
		}
	}
	return v
}

func (x *X) note(h map[int]map[uint64]*big.Int, u int, v *big.Int) {
	if h[u] == nil {
		h[u] = map[uint64]*big.Int{}
	}
	h[u][x.Period()] = cp(v)
}

func (x *X) level(u int) {
	x.Vip[u] = 0
	if x.vip[u] > 0 {
		x.Vip[u] = 1
	}
	if x.svip[u] > 0 {
		x.Vip[u] = 2
	}
}

// Wallets are the balances of the users outside the exchange.
func (x *X) wallets() map[string]*big.Int {
	m := map[string]*big.Int{}
	for u := range Users {
		for _, t := range Toks {
			m[fmt.Sprintf("%d/%s", u, t.Sym)] = x.W.Bal(Users[u], t.ID)
		}
	}
	return m
}

// call makes a request and compares acceptance and the movement of tokens outside the exchange.
// sendOK: the request is well formed; ok: it is carried out; moves: what is added to the wallets.
func (x *X) call(u int, tok *Tok, amt *big.Int, data []byte, what string, sendOK, ok bool, moves map[string]*big.Int) (recvHashes []types.Hash, key, msg string) {
	before := x.wallets()
	k := x.W.Call(Users[u], types.AddressDexFund, tok.ID, amt, data)
	if k.Bad != "" {
		return nil, "broken", what + ": " + k.Bad
	}
	if (k.SendErr == nil) != sendOK {
		return nil, "request", fmt.Sprintf("%s: request accepted=%v, expected %v (%v)", what, k.SendErr == nil, sendOK, k.SendErr)
	}
	if sendOK && k.OK != ok {
		return nil, "accepted", fmt.Sprintf("%s: carried out=%v, expected %v (%v)", what, k.OK, ok, k.Recv.Err)
	}
	if s := x.W.MustSettle(); s != "" {
		return nil, "broken", what + ": " + s
	}
	if sendOK && ok && k.Recv != nil && k.Recv.Block != nil {
		for _, s := range k.Recv.Block.SendBlockList {
			recvHashes = append(recvHashes, s.Hash)
		}
	}
	after := x.wallets()
	for n, b := range before {
		w := b
		if sendOK && ok {
			if n == fmt.Sprintf("%d/%s", u, tok.Sym) {
				w = sub(w, amt)
			}
			if v := moves[n]; v != nil {
				w = add(w, v)
			}
		}
		if after[n].Cmp(w) != 0 {
			return nil, "wallet", fmt.Sprintf("%s: wallet %s went from %s to %s, expected %s", what, n, b, after[n], w)
		}
	}
	return recvHashes, "", ""
}

func move(u int, t *Tok, v *big.Int) map[string]*big.Int {
	return map[string]*big.Int{fmt.Sprintf("%d/%s", u, t.Sym): v}
}

// Deposit puts tokens of the wallet into the account of to.
func (x *X) Deposit(u, to int, t *Tok, a *big.Int) (key, msg string) {
	x.W.SetBal(Users[u], t.ID, add(x.W.Bal(Users[u], t.ID), a))
	d := Fund("Deposit")
	if to != u {
		d = Fund("AgentDeposit", Users[to])
	}
	ok := a.Sign() > 0
	if ok {
		x.A(to, t).Av.Add(x.A(to, t).Av, a)
	}
	_, key, msg = x.call(u, t, a, d, fmt.Sprintf("u%d deposits %s %s for u%d", u, a, t.Sym, to), ok, true, nil)
	return
}

// Withdraw takes tokens out of the account, to the wallet of to.
func (x *X) Withdraw(u, to int, t *Tok, a *big.Int) (key, msg string) {
	d := Fund("Withdraw", t.ID, a)
	if to != u {
		d = Fund("AssignedWithdraw", Users[to], t.ID, a, []byte("label"))
	}
	ok := x.A(u, t).Av.Cmp(a) >= 0
	if ok && a.Sign() > 0 {
		x.A(u, t).Av.Sub(x.A(u, t).Av, a)
	}
	_, key, msg = x.call(u, VITE, z(), d, fmt.Sprintf("u%d withdraws %s %s to u%d", u, a, t.Sym, to), a.Sign() > 0, ok, move(to, t, a))
	return
}

// Transfer moves tokens between accounts.
func (x *X) Transfer(u, to int, t *Tok, a *big.Int) (key, msg string) {
	ok := x.A(u, t).Av.Cmp(a) >= 0
	if ok && a.Sign() > 0 {
		x.A(u, t).Av.Sub(x.A(u, t).Av, a)
		x.A(to, t).Av.Add(x.A(to, t).Av, a)
	}
	_, key, msg = x.call(u, VITE, z(), Fund("Transfer", Users[to], t.ID, a), fmt.Sprintf("u%d transfers %s %s to u%d", u, a, t.Sym, to), a.Sign() > 0, ok, nil)
	return
}

// Stake stakes for mining, VIP, SVIP or the SVIP level of somebody else.
func (x *X) Stake(kind, u, other int, amt *big.Int) (key, msg string) {
	var d []byte
	send, ok := true, true
	switch kind {
	case ForMining:
		d = Fund("StakeForMining", uint8(1), amt)
		send = amt.Cmp(vmkit.V(134)) >= 0
	case ForVIP:
		d, amt, ok = Fund("StakeForVIP", uint8(1)), vmkit.V(10000), x.vip[u] == 0
	case ForSVIP:
		d, amt, ok = Fund("StakeForSVIP", uint8(1)), vmkit.V(1000000), x.svip[u] == 0
	case ForOther:
		d, amt, ok = Fund("StakeForPrincipalSVIP", Users[other]), vmkit.V(1000000), x.svip[other] == 0
	}
	a := x.A(u, VITE)
	ok = ok && a.Av.Cmp(amt) >= 0
	what := fmt.Sprintf("u%d stakes %s, kind %d for u%d", u, amt, kind, other)
	if send && ok {
		a.Av.Sub(a.Av, amt)
	}
	ids, key, msg := x.call(u, VITE, z(), d, what, send, ok, nil)
	if key != "" || !send || !ok {
		return key, msg
	}
	if len(ids) != 1 {
		return "stake", fmt.Sprintf("%s: %d requests to the stake contract", what, len(ids))
	}
	if kind != ForOther {
		other = u
	}
	x.Stakes = append(x.Stakes, &Stk{ID: ids[0], Kind: kind, Owner: u, For: other, Amt: amt, Due: x.W.SB().Height + 600})
	switch kind {
	case ForMining:
		x.note(x.ms, u, x.staked(u))
	case ForVIP:
		x.vip[u]++
	default:
		x.svip[other]++
	}
	x.level(other)
	return "", ""
}

func (x *X) staked(u int) *big.Int {
	v := z()
	for _, s := range x.Stakes {
		if !s.Gone && s.Kind == ForMining && s.Owner == u {
			v.Add(v, s.Amt)
		}
	}
	return v
}

// Unstake cancels a stake by its identity.
func (x *X) Unstake(u int, s *Stk) (key, msg string) {
	ok := !s.Gone && s.Owner == u
	what := fmt.Sprintf("u%d cancels the stake %d of u%d, due in %d", u, s.Kind, s.Owner, int64(s.Due)-int64(x.W.SB().Height))
	if ok && x.W.SB().Height >= s.Due {
		s.Gone = true
		a := x.A(u, VITE)
		switch s.Kind {
		case ForMining:
			a.CS.Add(a.CS, s.Amt)
			x.returns[u] = append(x.returns[u], due{x.Period(), s.Amt})
			x.note(x.ms, u, x.staked(u))
		case ForVIP:
			x.vip[u]--
			a.Av.Add(a.Av, s.Amt)
		default:
			x.svip[s.For]--
			a.Av.Add(a.Av, s.Amt)
		}
		x.level(s.For)
	}
	_, key, msg = x.call(u, VITE, z(), Fund("CancelStakeById", s.ID), what, true, ok, nil)
	return
}

// OldUnstake uses the requests of before stakes had identities: there is nothing they could cancel.
func (x *X) OldUnstake(kind, u int) (key, msg string) {
	d := [][]byte{Fund("StakeForMining", uint8(2), vmkit.V(134)), Fund("StakeForVIP", uint8(2)), Fund("StakeForSVIP", uint8(2))}[kind]
	_, key, msg = x.call(u, VITE, z(), d, fmt.Sprintf("u%d cancels kind %d the old way", u, kind), true, false, nil)
	return
}

// LockVX locks or unlocks VX for dividends.
func (x *X) LockVX(u int, lock bool, amt *big.Int) (key, msg string) {
	a := x.A(u, VX)
	send := amt.Cmp(vmkit.V(1)) >= 0
	t, ok := uint8(1), a.Av.Cmp(amt) >= 0
	if !lock {
		t = 2
		left := sub(a.VL, amt)
		ok = left.Sign() == 0 || left.Cmp(vmkit.V(10)) >= 0
	}
	if send && ok {
		if lock {
			a.Av.Sub(a.Av, amt)
			a.VL.Add(a.VL, amt)
		} else {
			a.VL.Sub(a.VL, amt)
			a.VU.Add(a.VU, amt)
			x.unlocks[u] = append(x.unlocks[u], due{x.Period(), amt})
		}
		x.note(x.vx, u, a.VL)
	}
	_, key, msg = x.call(u, VITE, z(), Fund("LockVxForDividend", t, amt), fmt.Sprintf("u%d lock=%v %s VX", u, lock, amt), send, ok, nil)
	return
}

// AutoLock makes mined VX locked at once.
func (x *X) AutoLock(u int, on bool) (key, msg string) {
	x.Auto[u] = on
	_, key, msg = x.call(u, VITE, z(), Fund("SwitchConfig", uint8(1), on), "auto lock", true, true, nil)
	return
}

// Endorse adds VX to the mining pool.
func (x *X) Endorse(u int, amt *big.Int) (key, msg string) {
	x.W.SetBal(Users[u], VX.ID, add(x.W.Bal(Users[u], VX.ID), amt))
	x.Pool.Add(x.Pool, amt)
	_, key, msg = x.call(u, VX, amt, Fund("EndorseVx"), "endorse", true, true, nil)
	return
}

func (x *X) mined(u int, v *big.Int) {
	a := x.A(u, VX)
	if x.Auto[u] {
		a.VL.Add(a.VL, v)
		x.note(x.vx, u, a.VL)
	} else {
		a.Av.Add(a.Av, v)
	}
}

func sorted() []int {
	l := make([]int, len(Users))
	for i := range l {
		l[i] = i
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(Users[l[i]].Bytes(), Users[l[j]].Bytes()) < 0 })
	return l
}

// share is a running proportional division: the last part takes what is left.
type share struct{ total, left, ref, done *big.Int }

func (s *share) take(part *big.Int) (v *big.Int, finished bool) {
	s.done.Add(s.done, part)
	p := new(big.Float).SetPrec(120).Quo(new(big.Float).SetPrec(120).SetInt(part), new(big.Float).SetPrec(120).SetInt(s.ref))
	v = round(p.Mul(new(big.Float).SetPrec(120).SetInt(s.total), p))
	if v.Cmp(s.left) >= 0 || s.done.Cmp(s.ref) >= 0 {
		v = cp(s.left)
		s.left = z()
		return v, true
	}
	s.left = sub(s.left, v)
	return v, false
}

// toPay is the part of a pool that is paid out.
func (x *X) toPay(p uint64, t *Tok) *big.Int {
	v := x.Fees[p][t]
	if v == nil {
		return z()
	}
	first := true
	for q := range x.Fees {
		if q < p {
			first = false
		}
	}
	if t == VITE && !first {
		return cp(v)
	}
	return rate(v, 1000)
}

// Job runs a period job.
func (x *X) Job(by int, p uint64, biz uint8) (key, msg string) {
	ok := by == Admin && p < x.Period() && (x.last[biz] == 0 || p == x.last[biz]+1)
	if biz >= 3 && biz <= 5 && x.Pool.Sign() == 0 {
		ok = false
	}
	if ok {
		switch biz {
		case 1:
			x.dividend(p)
		case 2:
			for _, m := range x.Ms {
				k := fmt.Sprintf("%d/%d", p, m.ID)
				if v := x.OpFees[k]; v != nil {
					a := x.A(Operator, m.Quote)
					a.Av.Add(a.Av, v)
					delete(x.OpFees, k)
				}
			}
		case 3:
			x.mineFees(p)
		case 4:
			x.mineStakes(p)
		case 5:
			x.mineMaker(p)
		case 6:
			for u, l := range x.unlocks {
				a := x.A(u, VX)
				for len(l) > 0 && l[0].p+7 <= p {
					a.VU.Sub(a.VU, l[0].amt)
					a.Av.Add(a.Av, l[0].amt)
					l = l[1:]
				}
				x.unlocks[u] = l
			}
		case 7:
			for u, l := range x.returns {
				a := x.A(u, VITE)
				for len(l) > 0 && l[0].p+7 <= p {
					a.CS.Sub(a.CS, l[0].amt)
					a.Av.Add(a.Av, l[0].amt)
					l = l[1:]
				}
				x.returns[u] = l
			}
		}
		x.last[biz] = p
	}
	_, key, msg = x.call(by, VITE, z(), Fund("TriggerPeriodJob", p, biz), fmt.Sprintf("u%d runs job %d of period %d in period %d", by, biz, p, x.Period()), true, ok, nil)
	return
}

func (x *X) dividend(p uint64) {
	var ps []uint64
	for q := range x.Fees {
		if q <= p && !x.Paid[q] {
			ps = append(ps, q)
		}
	}
	ref := z()
	for u := range Users {
		if v := at(x.vx[u], p); v.Cmp(vmkit.V(10)) >= 0 {
			ref.Add(ref, v)
		}
	}
	if len(ps) == 0 || ref.Sign() == 0 {
		return
	}
	for _, t := range Toks {
		total := z()
		for _, q := range ps {
			total.Add(total, x.toPay(q, t))
		}
		if t == VITE || total.Sign() == 0 {
			continue // burnt
		}
		s := &share{total, cp(total), ref, z()}
		for _, u := range sorted() {
			if v := at(x.vx[u], p); v.Cmp(vmkit.V(10)) >= 0 {
				g, end := s.take(v)
				x.A(u, t).Av.Add(x.A(u, t).Av, g)
				if end {
					break
				}
			}
		}
	}
	for _, q := range ps {
		x.Paid[q] = true
	}
}

var daily []*big.Int

// Daily is the amount mined on the n-th day of normal mining: it grows for 90 days from 10000 VX, jumps to
// 50000 VX and shrinks from there, each step rounded down to the smallest unit.
func Daily(n uint64) *big.Int {
	for uint64(len(daily)) <= n {
		i := len(daily)
		switch {
		case i == 0:
			daily = append(daily, vmkit.V(10000))
		case i == 90:
			daily = append(daily, vmkit.V(50000))
		default:
			r := "1.0180435"
			if i > 90 {
				r = "0.99810276"
			}
			last := daily[i-1]
			prec := uint(64)
			if l := uint(last.BitLen()); l > prec {
				prec = l
			}
			f, _ := new(big.Float).SetPrec(64).SetString(r)
			v, _ := new(big.Float).SetPrec(prec).Mul(new(big.Float).SetPrec(prec).SetInt(last), f).Int(nil)
			daily = append(daily, v)
		}
	}
	return daily[n]
}

// ofDay is the given percentage of what is mined in a period.
func (x *X) ofDay(p uint64, percent string) *big.Int {
	total := vmkit.V(10000)
	if x.Normal {
		if x.First == 0 {
			x.First = p
		}
		total = Daily(p - x.First)
	}
	r, _ := new(big.Float).SetPrec(120).SetString(percent)
	return round(r.Mul(new(big.Float).SetPrec(120).SetInt(total), r))
}

// StartNormal ends the preheating.
func (x *X) StartNormal(by int) (key, msg string) {
	if by == Admin {
		x.Normal = true
	}
	_, key, msg = x.call(by, VITE, z(), Fund("TradeAdminConfig", uint8(16), zt, zt, false, zt, uint8(0), uint8(0), z(), uint8(0), z()), "start normal mining", true, by == Admin, nil)
	return
}

// Burn removes what can never be mined from the pool, once.
func (x *X) Burn(by int) (key, msg string) {
	ok := by == Admin
	if ok && x.Normal && x.Burnt.Sign() == 0 {
		if x.First == 0 {
			ok = false
		} else {
			rest := z()
			for i := x.last[3] - x.First + 1; i < 365*8; i++ {
				rest.Add(rest, Daily(i))
			}
			x.Burnt = add(sub(x.Pool, rest), big.NewInt(10))
			x.Pool.Sub(x.Pool, x.Burnt)
		}
	}
	_, key, msg = x.call(by, VITE, z(), Fund("TradeAdminConfig", uint8(32), zt, zt, false, zt, uint8(0), uint8(0), z(), uint8(0), z()), "burn VX", true, ok, nil)
	if key == "" {
		if g := dex.GetVxBurnAmount(x.W.NewDb(types.AddressDexFund)); g.Cmp(x.Burnt) != 0 {
			return "burn", fmt.Sprintf("burnt %s, expected %s", g, x.Burnt)
		}
	}
	return
}

// portions splits what may be mined of the pool.
func (x *X) portions(total *big.Int, parts []int64, sum int64) []*big.Int {
	short := total.Cmp(x.Pool) > 0
	if short {
		total = cp(x.Pool)
	}
	one := new(big.Int).Div(total, big.NewInt(sum))
	left := cp(x.Pool)
	var l []*big.Int
	for _, n := range parts {
		v := min(new(big.Int).Mul(one, big.NewInt(n)), left)
		left.Sub(left, v)
		l = append(l, v)
	}
	if short || left.Cmp(vmkit.V(100)) <= 0 {
		l[0].Add(l[0], left)
		left = z()
	}
	x.Pool = left
	return l
}

func (x *X) mineFees(p uint64) {
	l := x.portions(x.ofDay(p, "0.5"), []int64{1, 1, 1, 1}, 4)
	if x.Fees[p] == nil || x.Paid[p] && x.Mined[p] {
		for _, v := range l {
			x.Pool.Add(x.Pool, v)
		}
		return
	}
	for typ := int32(1); typ <= 4; typ++ {
		get := func(u int) (b, i *big.Int, ok bool) {
			f := x.UserFee[fmt.Sprintf("%d/%d/%d", p, u, typ)]
			if f == nil {
				return z(), z(), false
			}
			return f[0], f[1], add(f[0], f[1]).Cmp(x.MineMin[typ]) >= 0
		}
		ref := z()
		for u := range Users {
			if b, i, ok := get(u); ok {
				ref.Add(ref, add(b, i))
			}
		}
		s := &share{l[typ-1], cp(l[typ-1]), ref, z()}
		for _, u := range sorted() {
			b, i, ok := get(u)
			if !ok {
				continue
			}
			end := false
			got := z()
			for _, part := range []*big.Int{b, i} {
				if part.Sign() > 0 && !end {
					var v *big.Int
					v, end = s.take(part)
					got.Add(got, v)
				}
			}
			x.mined(u, got)
			if end {
				break
			}
		}
		x.Pool.Add(x.Pool, s.left)
	}
	for q := range x.Fees {
		if q <= p {
			x.Mined[q] = true
			for u := range Users {
				for typ := 1; typ <= 4; typ++ {
					delete(x.UserFee, fmt.Sprintf("%d/%d/%d", q, u, typ))
				}
			}
		}
	}
}

func (x *X) mineStakes(p uint64) {
	amt := x.ofDay(p, "0.1")
	if amt.Cmp(x.Pool) > 0 {
		amt = cp(x.Pool)
	}
	left := sub(x.Pool, amt)
	if left.Cmp(vmkit.V(100)) <= 0 {
		amt, left = add(amt, left), z()
	}
	x.Pool = left
	ref := z()
	for u := range Users {
		if v := at(x.ms[u], p); v.Cmp(vmkit.V(134)) >= 0 {
			ref.Add(ref, v)
		}
	}
	if ref.Sign() == 0 {
		x.Pool.Add(x.Pool, amt)
		return
	}
	s := &share{amt, cp(amt), ref, z()}
	for _, u := range sorted() {
		if v := at(x.ms[u], p); v.Cmp(vmkit.V(134)) >= 0 {
			g, end := s.take(v)
			x.mined(u, g)
			if end {
				break
			}
		}
	}
	x.Pool.Add(x.Pool, s.left)
}

func (x *X) mineMaker(p uint64) {
	l := x.portions(x.ofDay(p, "0.4"), []int64{3, 5}, 8)
	if l[0].Sign() > 0 {
		x.Maker[p] = l[0]
	}
	x.mined(Admin, l[1])
}

// SettleMaker hands out the makers' pool of a period.
func (x *X) SettleMaker(by int, p uint64, page int32, us []int, amts []*big.Int) (key, msg string) {
	acts := &dexproto.VxSettleActions{Period: p, Page: page}
	for i, u := range us {
		acts.Actions = append(acts.Actions, &dexproto.VxSettleAction{Address: Users[u].Bytes(), Amount: amts[i].Bytes()})
	}
	raw, err := proto.Marshal(acts)
	if err != nil {
		panic(err)
	}
	pool := x.Maker[p]
	ok := by == Admin && len(us) > 0 && (x.settledP == 0 || p == x.settledP+1) && (x.settledPg == 0 || page == x.settledPg+1) && pool != nil && pool.Sign() > 0
	if ok {
		for i, u := range us {
			v := min(amts[i], pool)
			x.mined(u, v)
			pool.Sub(pool, v)
			if pool.Sign() == 0 {
				break
			}
		}
		if pool.Sign() > 0 {
			x.settledPg = page
		} else {
			x.settledP, x.settledPg = p, 0
		}
	}
	_, key, msg = x.call(by, VITE, z(), Fund("SettleMakerMinedVx", raw), fmt.Sprintf("u%d settles makers of period %d page %d", by, p, page), true, ok, nil)
	return
}

// CheckStakes compares the recorded stakes and levels with the model.
func (x *X) CheckStakes() (key, msg string) {
	fdb := x.W.NewDb(types.AddressDexFund)
	for u := range Users {
		v, ok := dex.GetVIPStaking(fdb, Users[u])
		if ok != (x.vip[u] > 0) || ok && int(v.StakedTimes) != x.vip[u] {
			return "level", fmt.Sprintf("u%d VIP %v %v, expected %d stakes", u, ok, v, x.vip[u])
		}
		v, ok = dex.GetSuperVIPStaking(fdb, Users[u])
		if ok != (x.svip[u] > 0) || ok && int(v.StakedTimes) != x.svip[u] {
			return "level", fmt.Sprintf("u%d SVIP %v %v, expected %d stakes", u, ok, v, x.svip[u])
		}
		list, total, err := dex.GetStakeInfoList(fdb, Users[u], func(*dex.DelegateStakeAddressIndex) bool { return true })
		want, n := z(), 0
		for _, s := range x.Stakes {
			if !s.Gone && s.Owner == u {
				want.Add(want, s.Amt)
				n++
			}
		}
		if err != nil || len(list) != n || total.Cmp(want) != 0 {
			return "stake", fmt.Sprintf("u%d: %d stakes of %s (%v), expected %d of %s", u, len(list), total, err, n, want)
		}
		if g := dex.GetMiningStakedV2Amount(fdb, Users[u]); g.Cmp(x.staked(u)) != 0 {
			return "stake", fmt.Sprintf("u%d: mining stake %s, expected %s", u, g, x.staked(u))
		}
	}
	return "", ""
}
