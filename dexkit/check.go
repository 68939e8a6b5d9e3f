package dexkit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
)

func b2(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func orderNo(id []byte) string {
	if len(id) != 22 {
		return fmt.Sprintf("id of %d bytes", len(id))
	}
	ts := int64(0)
	for _, c := range id[14:19] {
		ts = ts<<8 | int64(c)
	}
	no := int(id[19])<<16 | int(binary.BigEndian.Uint16(id[20:]))
	return fmt.Sprintf("%d/%d", ts, no)
}

// Place makes the request and reports how the exchange departs from the model, or "".
func (x *X) Place(r Req) (key, msg string) { return x.PlaceBy(r, r.U) }

// PlaceBy is Place through an agent when by differs from the owner.
func (x *X) PlaceBy(r Req, by int) (key, msg string) {
	static := r.Qty.Sign() > 0 && r.Type >= 0 && r.Type <= 4 && (r.Type == MarketOrder || ValidPrice(r.Price))
	var tt, qt types.TokenTypeId
	if r.M >= 0 && r.M < len(x.Ms) {
		tt, qt = x.Ms[r.M].Trade.ID, x.Ms[r.M].Quote.ID
	} else {
		tt, qt = T0.ID, USD.ID // no such market
	}
	var data []byte
	if by == r.U {
		data = Fund("PlaceOrder", tt, qt, r.Sell, uint8(r.Type), r.Price, r.Qty)
	} else {
		data = Fund("PlaceAgentOrder", Users[r.U], tt, qt, r.Sell, uint8(r.Type), r.Price, r.Qty)
	}
	before := x.Open
	var want bool
	if static {
		want = x.predict(r)
	}
	k := x.W.Call(Users[by], types.AddressDexFund, VITE.ID, z(), data)
	if k.Bad != "" {
		return "broken", k.Bad
	}
	if (k.SendErr == nil) != static {
		return "request", fmt.Sprintf("%v: request accepted=%v, expected %v (%v)", r, k.SendErr == nil, static, k.SendErr)
	}
	if !static {
		return "", ""
	}
	if k.OK != want {
		return "accepted", fmt.Sprintf("%v: order accepted=%v, expected %v (%v)", r, k.OK, want, k.Recv.Err)
	}
	var txs, evs []string
	x.W.OnResp = func(a types.Address, h *types.Hash) {
		if a != types.AddressDexTrade || h == nil {
			return
		}
		for _, l := range x.W.Logs[*h] {
			if len(l.Topics) > 0 && l.Topics[0] == (&dex.NewOrderEvent{}).GetTopicId() {
				t := &dexproto.NewOrderInfo{}
				if err := proto.Unmarshal(l.Data, t); err != nil || t.Order == nil {
					evs = append(evs, fmt.Sprint("bad event ", err))
					continue
				}
				o, u := t.Order, -1
				for i := range Users {
					if bytes.Equal(Users[i].Bytes(), o.Address) {
						u = i
					}
				}
				pr := r.Price
				if o.Type != MarketOrder {
					pr = dex.BytesToPrice(o.Price)
				}
				evs = append(evs, fmt.Sprintf("new u%d type %d sell %v %s at %s: %s status %d/%d executed %s for %s fees %s+%s refund %s", u, o.Type, o.Side, b2(o.Quantity), pr, orderNo(o.Id), o.Status, o.CancelReason, b2(o.ExecutedQuantity), b2(o.ExecutedAmount), b2(o.ExecutedBaseFee), b2(o.ExecutedOperatorFee), b2(o.RefundQuantity)))
			}
			if len(l.Topics) > 0 && l.Topics[0] == (&dex.OrderUpdateEvent{}).GetTopicId() {
				o := &dexproto.OrderUpdateInfo{}
				if err := proto.Unmarshal(l.Data, o); err != nil {
					evs = append(evs, fmt.Sprint("bad event ", err))
					continue
				}
				evs = append(evs, fmt.Sprintf("update %s status %d/%d executed %s for %s fees %s+%s refund %s", orderNo(o.Id), o.Status, o.CancelReason, b2(o.ExecutedQuantity), b2(o.ExecutedAmount), b2(o.ExecutedBaseFee), b2(o.ExecutedOperatorFee), b2(o.RefundQuantity)))
			}
			if len(l.Topics) > 0 && l.Topics[0] == (&dex.TransactionEvent{}).GetTopicId() {
				t := &dexproto.Transaction{}
				if err := proto.Unmarshal(l.Data, t); err != nil {
					txs = append(txs, err.Error())
					continue
				}
				txs = append(txs, fmt.Sprintf("sell=%v maker %s: %s at %s for %s, fees %s+%s %s+%s", t.TakerSide, orderNo(t.MakerId), b2(t.Quantity), dex.BytesToPrice(t.Price), b2(t.Amount), b2(t.TakerFee), b2(t.TakerOperatorFee), b2(t.MakerFee), b2(t.MakerOperatorFee)))
			}
		}
	}
	s := x.W.MustSettle()
	x.W.OnResp = nil
	if s != "" {
		return "broken", s
	}
	if !want {
		return "", ""
	}
	_ = before
	if n := len(x.Open); n > 0 {
		if o := x.Open[n-1]; o.Hash.IsZero() {
			o.Hash = k.Send.Hash
		}
	}
	if a, b := fmt.Sprint(txs), fmt.Sprint(x.Txs); a != b {
		return "trades", fmt.Sprintf("%v traded\n  %v\nexpected\n  %v", r, txs, x.Txs)
	}
	if a, b := strings.Join(evs, "\n  "), strings.Join(x.Evs, "\n  "); a != b {
		return "events", fmt.Sprintf("%v announced\n  %v\nexpected\n  %v", r, a, b)
	}
	return "", ""
}

// Cancel asks for the cancellation of an order. how: 0 by id, 1 by transaction hash, 2 through the fund contract.
func (x *X) Cancel(o *Ord, by, how int, principal types.Address, granted bool) (key, msg string) {
	id, has := dex.GetOrderIdByHash(x.W.NewDb(types.AddressDexTrade), o.Hash.Bytes())
	open := false
	for _, y := range x.Open {
		if y == o {
			open = true
		}
	}
	if has != open {
		return "lookup", fmt.Sprintf("%v: found by its transaction=%v, open=%v", o, has, open)
	}
	if how == 0 && !has {
		return "", ""
	}
	to, data := types.AddressDexTrade, []byte(nil)
	switch how {
	case 0:
		data = Trade("CancelOrder", id)
	case 1:
		data = Trade("CancelOrderByTransactionHash", o.Hash)
	case 2:
		to, data = types.AddressDexFund, Fund("CancelOrderBySendHash", o.Hash, principal, o.M.Trade.ID, o.M.Quote.ID)
	}
	k := x.W.Call(Users[by], to, VITE.ID, z(), data)
	if k.Bad != "" || k.SendErr != nil {
		return "broken", fmt.Sprintf("cancel of %v: %v %v", o, k.Bad, k.SendErr)
	}
	ok := open && by == o.Owner
	if how == 2 {
		p := Users[by]
		if principal != (types.Address{}) {
			p = principal
		}
		fund := p == Users[by] || granted
		if k.OK != fund {
			return "cancel-right", fmt.Sprintf("cancel of %v by u%d for %v passed=%v, expected %v", o, by, p, k.OK, fund)
		}
		ok = open && fund && p == Users[o.Owner]
	} else if k.OK != ok {
		return "cancel-right", fmt.Sprintf("cancel of %v by u%d succeeded=%v, expected %v (%v)", o, by, k.OK, ok, k.Recv.Err)
	}
	if s := x.W.MustSettle(); s != "" {
		return "broken", s
	}
	if ok {
		x.refund(o)
	}
	return "", ""
}

// Check compares accounts, books and fees with the model.
func (x *X) Check() (key, msg string) {
	fdb := x.W.NewDb(types.AddressDexFund)
	sum := map[*Tok]*big.Int{}
	for _, t := range Toks {
		sum[t] = z()
	}
	for u := range Users {
		f, _ := dex.GetFund(fdb, Users[u])
		seen := map[types.TokenTypeId]bool{}
		for _, a := range f.Accounts {
			id, _ := types.BytesToTokenTypeId(a.Token)
			if seen[id] {
				return "account", fmt.Sprintf("u%d has two accounts of %v", u, id)
			}
			seen[id] = true
		}
		for _, t := range Toks {
			a, _ := dex.GetAccountByToken(f, t.ID)
			w := x.A(u, t)
			if b2(a.Available).Cmp(w.Av) != 0 || b2(a.Locked).Cmp(w.Lk) != 0 {
				return "account", fmt.Sprintf("u%d %s: available %s locked %s, expected %s and %s", u, t.Sym, b2(a.Available), b2(a.Locked), w.Av, w.Lk)
			}
			if b2(a.VxLocked).Cmp(w.VL) != 0 || b2(a.VxUnlocking).Cmp(w.VU) != 0 || b2(a.CancellingStake).Cmp(w.CS) != 0 {
				return "account", fmt.Sprintf("u%d %s: VX locked %s, unlocking %s, stake returning %s, expected %s, %s and %s", u, t.Sym, b2(a.VxLocked), b2(a.VxUnlocking), b2(a.CancellingStake), w.VL, w.VU, w.CS)
			}
			for _, v := range []*big.Int{w.Av, w.Lk, w.VL, w.VU, w.CS} {
				sum[t].Add(sum[t], v)
			}
		}
	}
	lk := map[string]*big.Int{}
	tdb := x.W.NewDb(types.AddressDexTrade)
	for _, m := range x.Ms {
		mc, err := dex.NewMatcher(tdb, m.ID)
		if err != nil {
			return "book", fmt.Sprintf("market %d: %v", m.ID, err)
		}
		for _, sell := range []bool{false, true} {
			got, _, err := mc.GetOrdersFromMarket(sell, 0, 1000)
			if err != nil {
				return "book", err.Error()
			}
			want := x.Book(m, sell)
			if len(got) != len(want) {
				return "book", fmt.Sprintf("market %d sell=%v: %d open orders, expected %d %v", m.ID, sell, len(got), len(want), want)
			}
			for i, o := range want {
				g := got[i]
				s := func(x ...interface{}) string { return fmt.Sprint(x...) }
				a := s(types.Address{}, g.Type, dex.BytesToPrice(g.Price), b2(g.Quantity), b2(g.Amount), b2(g.LockedBuyFee), b2(g.ExecutedQuantity), b2(g.ExecutedAmount), b2(g.ExecutedBaseFee), b2(g.ExecutedOperatorFee), g.Status, g.TakerFeeRate, g.TakerOperatorFeeRate, g.MakerFeeRate, g.MakerOperatorFeeRate, g.Timestamp, orderNo(g.Id))
				b := s(types.Address{}, o.Type, o.Price, o.Qty, o.Amt, o.Fee, o.XQty, o.XAmt, o.XFee, o.XOp, o.Status, o.TF, o.TO, o.MF, o.MO, o.Ts, fmt.Sprintf("%d/%d", o.Ts, o.No))
				if a != b || !bytes.Equal(g.Address, Users[o.Owner].Bytes()) || !bytes.Equal(g.SendHash, o.Hash.Bytes()) || g.Side != sell || g.MarketId != m.ID {
					return "book", fmt.Sprintf("market %d sell=%v place %d: order %s (owner %x) expected %s (%v)", m.ID, sell, i, a, g.Address, b, o)
				}
				if id, ok := dex.GetOrderIdByHash(tdb, o.Hash.Bytes()); !ok || !bytes.Equal(id, g.Id) {
					return "lookup", fmt.Sprintf("%v is not found by its transaction", o)
				}
				t, v := m.Quote, sub(sub(sub(add(o.Amt, o.Fee), o.XAmt), o.XFee), o.XOp)
				if sell {
					t, v = m.Trade, sub(o.Qty, o.XQty)
				}
				k := fmt.Sprintf("%d/%s", o.Owner, t.Sym)
				if lk[k] == nil {
					lk[k] = z()
				}
				lk[k].Add(lk[k], v)
			}
		}
	}
	for u := range Users {
		for _, t := range Toks {
			v := lk[fmt.Sprintf("%d/%s", u, t.Sym)]
			if v == nil {
				v = z()
			}
			if v.Cmp(x.A(u, t).Lk) != 0 {
				return "locked", fmt.Sprintf("u%d %s: %s locked, the open orders need %s", u, t.Sym, x.A(u, t).Lk, v)
			}
		}
	}
	return x.checkFees(sum)
}

func (x *X) checkFees(sum map[*Tok]*big.Int) (key, msg string) {
	fdb := x.W.NewDb(types.AddressDexFund)
	var periods []uint64
	for p := range x.Fees {
		periods = append(periods, p)
	}
	sort.Slice(periods, func(i, j int) bool { return periods[i] < periods[j] })
	mine := map[string]*[2]*big.Int{}
	for _, p := range periods {
		f, ok := dex.GetDexFeesByPeriodId(fdb, p)
		if ok == (x.Paid[p] && x.Mined[p]) {
			return "fees", fmt.Sprintf("fees of period %d kept=%v, paid out %v, mined %v", p, ok, x.Paid[p], x.Mined[p])
		}
		if !ok {
			continue
		}
		if f.FinishDividend != x.Paid[p] || f.FinishMine != x.Mined[p] {
			return "fees", fmt.Sprintf("fees of period %d paid=%v mined=%v, expected %v %v", p, f.FinishDividend, f.FinishMine, x.Paid[p], x.Mined[p])
		}
		got := map[types.TokenTypeId]*big.Int{}
		for _, d := range f.FeesForDividend {
			id, _ := types.BytesToTokenTypeId(d.Token)
			if got[id] != nil {
				return "fees", "two pools of a token"
			}
			got[id] = b2(d.DividendPoolAmount)
		}
		for _, t := range Toks {
			g, w := got[t.ID], x.Fees[p][t]
			if g == nil {
				g = z()
			}
			if w == nil {
				w = z()
			}
			if g.Cmp(w) != 0 {
				return "fees", fmt.Sprintf("period %d pool of %s is %s, expected %s", p, t.Sym, g, w)
			}
		}
		for _, d := range f.FeesForMine {
			mine[fmt.Sprintf("%d/%d", p, d.QuoteTokenType)] = &[2]*big.Int{b2(d.BaseAmount), b2(d.InviteBonusAmount)}
		}
	}
	// the pools hold what was paid in, once: later periods start with what the earlier one carried over
	for i, p := range periods {
		for t, v := range x.Fees[p] {
			n := cp(v)
			if i+1 < len(periods) {
				c := sub(v, rate(v, 1000))
				if t == VITE && i > 0 {
					c = z()
				}
				n.Sub(n, c)
			}
			if x.Paid[p] {
				continue
			}
			sum[t].Add(sum[t], n)
		}
	}
	need := map[string]*[2]*big.Int{}
	for u := range Users {
		uf, _ := dex.GetUserFees(fdb, Users[u].Bytes())
		got := map[string]*[2]*big.Int{}
		for _, per := range uf.Fees {
			for _, a := range per.Fees {
				got[fmt.Sprintf("%d/%d/%d", per.Period, u, a.QuoteTokenType)] = &[2]*big.Int{b2(a.BaseAmount), b2(a.InviteBonusAmount)}
			}
		}
		for _, p := range periods {
			for typ := int32(1); typ <= 4; typ++ {
				k := fmt.Sprintf("%d/%d/%d", p, u, typ)
				w, g := x.UserFee[k], got[k]
				if w == nil {
					w = &[2]*big.Int{z(), z()}
				}
				if g == nil {
					g = &[2]*big.Int{z(), z()}
				}
				if w[0].Cmp(g[0]) != 0 || w[1].Cmp(g[1]) != 0 {
					return "mining-fees", fmt.Sprintf("period %d u%d type %d: fees %v, expected %v", p, u, typ, g, w)
				}
				if add(w[0], w[1]).Cmp(x.MineMin[typ]) >= 0 {
					kk := fmt.Sprintf("%d/%d", p, typ)
					if need[kk] == nil {
						need[kk] = &[2]*big.Int{z(), z()}
					}
					need[kk][0].Add(need[kk][0], w[0])
					need[kk][1].Add(need[kk][1], w[1])
				}
			}
		}
	}
	for k, w := range need {
		var kp uint64
		fmt.Sscanf(k, "%d/", &kp)
		if x.Mined[kp] {
			continue
		}
		g := mine[k]
		if g == nil || g[0].Cmp(w[0]) != 0 || g[1].Cmp(w[1]) != 0 {
			return "mining-fees", fmt.Sprintf("fees that count for mining %s: %v, expected %v", k, g, w)
		}
		delete(mine, k)
	}
	for k, g := range mine {
		var kp uint64
		fmt.Sscanf(k, "%d/", &kp)
		if x.Mined[kp] {
			continue
		}
		if g[0].Sign() != 0 || g[1].Sign() != 0 {
			return "mining-fees", fmt.Sprintf("fees that count for mining %s: %v, expected none", k, g)
		}
	}
	for _, p := range periods {
		of, _ := dex.GetOperatorFeesByPeriodId(fdb, Users[Operator].Bytes(), p)
		got := map[int32]*big.Int{}
		for _, t := range of.OperatorFees {
			for _, m := range t.MarketFees {
				got[m.MarketId] = b2(m.Amount)
				if int(m.MarketId) > len(x.Ms) || !bytes.Equal(t.Token, x.Ms[m.MarketId-1].Quote.ID.Bytes()) {
					return "operator-fees", "an operator fee in the wrong token"
				}
			}
		}
		for _, m := range x.Ms {
			g, w := got[m.ID], x.OpFees[fmt.Sprintf("%d/%d", p, m.ID)]
			if g == nil {
				g = z()
			}
			if w == nil {
				w = z()
			}
			if g.Cmp(w) != 0 {
				return "operator-fees", fmt.Sprintf("period %d market %d: operator fee %s, expected %s", p, m.ID, g, w)
			}
			sum[m.Quote].Add(sum[m.Quote], w)
		}
	}
	sum[VX].Add(sum[VX], x.Pool)
	for _, v := range x.Maker {
		sum[VX].Add(sum[VX], v)
	}
	if g := dex.GetVxMinePool(fdb); g.Cmp(x.Pool) != 0 {
		return "mine-pool", fmt.Sprintf("mining pool %s, expected %s", g, x.Pool)
	}
	for p, v := range x.Maker {
		if g := dex.GetMakerMiningPoolByPeriodId(fdb, p); g.Cmp(v) != 0 {
			return "mine-pool", fmt.Sprintf("maker pool of period %d is %s, expected %s", p, g, v)
		}
	}
	for _, t := range Toks {
		if b := x.W.Bal(types.AddressDexFund, t.ID); b.Cmp(sum[t]) != 0 {
			return "solvency", fmt.Sprintf("the exchange holds %s %s and owes %s", b, t.Sym, sum[t])
		}
	}
	return "", ""
}
