// Property C02: a token's supply is what its owner issued within its maximum, minus what was burned.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var users = []types.Address{vmkit.User(1), vmkit.User(2)}
var fee = vmkit.V(1000)

type token struct {
	id            types.TokenTypeId
	name, symbol  string
	supply, max   *big.Int
	decimals      uint8
	owner         int
	reissue, burn bool // burn: only the owner may burn
	index         uint16
	hold          []*big.Int
}

type model struct {
	toks  []*token
	vite  []*big.Int
	next  map[string]uint16
	burnt *big.Int
}

type issue struct {
	name, symbol string
	supply, max  *big.Int
	dec          uint8
	reissue      bool
	burn         bool
}

func (i issue) valid() bool {
	two256 := new(big.Int).Lsh(big.NewInt(1), 256)
	if len(i.name) < 1 || len(i.name) > 40 || len(i.symbol) < 1 || len(i.symbol) > 10 || i.supply.Cmp(two256) >= 0 || i.max.Cmp(two256) >= 0 {
		return false
	}
	letter := func(r byte) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' }
	for k := 0; k < len(i.name); k++ {
		if !letter(i.name[k]) && !(i.name[k] == ' ' && k > 0 && k < len(i.name)-1 && i.name[k-1] != ' ') {
			return false
		}
	}
	for k := 0; k < len(i.symbol); k++ {
		if r := i.symbol[k]; !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return false
		}
	}
	if i.symbol == "VITE" || i.symbol == "VCP" || i.symbol == "VX" {
		return false
	}
	if i.reissue {
		return i.max.Cmp(i.supply) >= 0
	}
	return i.supply.Sign() > 0 && i.max.Sign() == 0 && !i.burn
}

func pack(name string, a ...interface{}) []byte {
	d, err := abi.ABIAsset.PackMethod(name, a...)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	return d
}

func world() (*vmkit.World, *model) {
	vmkit.Init(nil)
	w := vmkit.New()
	m := &model{next: map[string]uint16{}, burnt: new(big.Int)}
	for _, u := range users {
		w.SetBal(u, vmkit.Vite, vmkit.V(10000))
		m.vite = append(m.vite, vmkit.V(10000))
	}
	return w, m
}

func info(t *token) string {
	return fmt.Sprintf("%s %s supply %v max %v dec %d owner %x reissue %v ownerburn %v index %d", t.name, t.symbol, t.supply, t.max, t.decimals, users[t.owner][:3], t.reissue, t.burn, t.index)
}
func infoOf(t *types.TokenInfo) string {
	if t == nil {
		return "nil"
	}
	return fmt.Sprintf("%s %s supply %v max %v dec %d owner %x reissue %v ownerburn %v index %d", t.TokenName, t.TokenSymbol, t.TotalSupply, t.MaxSupply, t.Decimals, t.Owner[:3], t.IsReIssuable, t.OwnerBurnOnly, t.Index)
}
func show(m map[types.TokenTypeId]*types.TokenInfo) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%x: %s", k[:], infoOf(v)))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func check(c *C, w *vmkit.World, m *model) {
	c.State()
	db := w.DB(types.AddressAsset)
	for _, t := range m.toks {
		ti, err := abi.GetTokenByID(db, t.id)
		if err != nil || infoOf(ti) != info(t) {
			c.Fail("C02/info", "token %x\n got %s (%v)\nwant %s", t.id[:], infoOf(ti), err, info(t))
		}
		if w.Total(t.id).Cmp(t.supply) != 0 {
			c.Fail("C02/supply", "token %s: %v in circulation, supply %v", t.symbol, w.Total(t.id), t.supply)
		}
		if t.reissue && t.supply.Cmp(t.max) > 0 {
			c.Fail("C02/max", "token %s: supply %v exceeds maximum %v", t.symbol, t.supply, t.max)
		}
		for i, u := range users {
			if w.Bal(u, t.id).Cmp(t.hold[i]) != 0 {
				c.Fail("C02/hold", "u%d holds %v %s, expected %v", i, w.Bal(u, t.id), t.symbol, t.hold[i])
			}
		}
		if w.Bal(types.AddressAsset, t.id).Sign() != 0 {
			c.Fail("C02/kept", "the contract kept %v %s", w.Bal(types.AddressAsset, t.id), t.symbol)
		}
	}
	all, err := abi.GetTokenMap(db)
	want := map[types.TokenTypeId]string{}
	for _, t := range m.toks {
		want[t.id] = info(t)
	}
	if err != nil || len(all) != len(want) {
		c.Fail("C02/map", "token map has %d entries, expected %d (%v)", len(all), len(want), err)
	}
	for id, s := range want {
		if infoOf(all[id]) != s {
			c.Fail("C02/map", "token map: %s, expected %s", infoOf(all[id]), s)
		}
	}
	for i, u := range users {
		if w.Bal(u, vmkit.Vite).Cmp(m.vite[i]) != 0 {
			c.Fail("C02/vite", "u%d has %v VITE, expected %v", i, w.Bal(u, vmkit.Vite), m.vite[i])
		}
		own, err := abi.GetTokenMapByOwner(db, u)
		n := 0
		for _, t := range m.toks {
			if t.owner == i {
				n++
				if infoOf(own[t.id]) != info(t) {
					c.Fail("C02/owner", "token %s missing or wrong in its owner's list: %s", t.symbol, infoOf(own[t.id]))
				}
			}
		}
		if err != nil || len(own) != n {
			c.Fail("C02/owner", "u%d owns %d tokens, expected %d: %v", i, len(own), n, show(own))
		}
	}
	if tot := new(big.Int).Sub(vmkit.V(20000), m.burnt); w.Total(vmkit.Vite).Cmp(tot) != 0 {
		c.Fail("C02/vite-total", "%v VITE exist, expected %v", w.Total(vmkit.Vite), tot)
	}
}

type result struct {
	sendOK, ok bool
	apply      func(k *vmkit.Called)
	out        *ledger.AccountBlock // expected payment
	event      []byte               // expected event data after the topics, nil none
}

func call(c *C, w *vmkit.World, m *model, name string, who int, tok types.TokenTypeId, amount *big.Int, data []byte, sendOK, ok bool, out func(k *vmkit.Called) *ledger.AccountBlock, apply func(k *vmkit.Called)) {
	c.Op("%s", name)
	before := fmt.Sprint(w.StorageOf(types.AddressAsset))
	k := w.Call(users[who], types.AddressAsset, tok, amount, data)
	if k.Bad != "" {
		c.Fail("C02/broken", "%s: %s", name, k.Bad)
	}
	if (k.SendErr == nil) != sendOK {
		c.Fail("C02/accepted", "%s: accepted=%v, expected %v (%v)", name, k.SendErr == nil, sendOK, k.SendErr)
	}
	if !sendOK {
		if fmt.Sprint(w.StorageOf(types.AddressAsset)) != before {
			c.Fail("C02/refused-effect", "%s was refused but had an effect", name)
		}
		return
	}
	if k.OK != ok {
		c.Fail("C02/outcome", "%s succeeded=%v, expected %v (%v)", name, k.OK, ok, k.Recv.Err)
	}
	if !ok && fmt.Sprint(w.StorageOf(types.AddressAsset)) != before {
		c.Fail("C02/failed-effect", "%s failed but had an effect", name)
	}
	if ok {
		apply(k)
	}
	var want *ledger.AccountBlock
	if out != nil {
		want = out(k)
	}
	if want == nil {
		if len(k.Out) != 0 {
			c.Fail("C02/paid", "%s: unexpected payment %v of %v", name, k.Out[0].Amount, k.Out[0].TokenId)
		}
	} else if len(k.Out) != 1 || k.Out[0].ToAddress != want.ToAddress || k.Out[0].TokenId != want.TokenId || k.Out[0].Amount.Cmp(want.Amount) != 0 || !bytes.Equal(k.Out[0].Data, want.Data) {
		c.Fail("C02/paid", "%s: sent %v, expected %v", name, k.Out, want)
	}
	if s := w.MustSettle(); s != "" {
		c.Fail("C02/settle", "%s", s)
	}
}

func (m *model) issue(c *C, w *vmkit.World, method string, who int, i issue) {
	data := pack(method, i.reissue, i.name, i.symbol, i.supply, i.dec, i.max, i.burn)
	rich := m.vite[who].Cmp(fee) >= 0
	sendOK := i.valid() && rich
	ok := m.next[i.symbol] < 1000
	call(c, w, m, fmt.Sprintf("%s u%d %+v", method, who, i), who, vmkit.Vite, new(big.Int), data, sendOK, ok, func(k *vmkit.Called) *ledger.AccountBlock {
		if !ok {
			return &ledger.AccountBlock{ToAddress: users[who], TokenId: vmkit.Vite, Amount: fee}
		}
		return &ledger.AccountBlock{ToAddress: users[who], TokenId: m.toks[len(m.toks)-1].id, Amount: i.supply}
	}, func(k *vmkit.Called) {
		t := &token{name: i.name, symbol: i.symbol, supply: i.supply, max: i.max, decimals: i.dec, owner: who, reissue: i.reissue, burn: i.burn, index: m.next[i.symbol]}
		m.next[i.symbol]++
		t.hold = []*big.Int{new(big.Int), new(big.Int)}
		t.hold[who] = i.supply
		if len(k.Out) == 1 {
			t.id = k.Out[0].TokenId
		}
		for _, o := range m.toks {
			if o.id == t.id {
				c.Fail("C02/id", "two tokens with id %v", t.id)
			}
		}
		m.toks = append(m.toks, t)
		m.vite[who] = new(big.Int).Sub(m.vite[who], fee)
		m.burnt = new(big.Int).Add(m.burnt, fee)
	})
}

func (m *model) tok(n int) (*token, types.TokenTypeId) {
	if n < len(m.toks) {
		return m.toks[n], m.toks[n].id
	}
	return nil, types.TokenTypeId{7, 7}
}

func (m *model) reissue(c *C, w *vmkit.World, method string, who, n, to int, amt *big.Int) {
	t, id := m.tok(n)
	sendOK := amt.Sign() > 0
	ok := t != nil && t.reissue && t.owner == who && new(big.Int).Add(t.supply, amt).Cmp(t.max) <= 0
	call(c, w, m, fmt.Sprintf("%s u%d token %d %v to u%d", method, who, n, amt, to), who, vmkit.Vite, new(big.Int), pack(method, id, amt, users[to]), sendOK, ok, func(k *vmkit.Called) *ledger.AccountBlock {
		if !ok {
			return nil
		}
		return &ledger.AccountBlock{ToAddress: users[to], TokenId: id, Amount: amt}
	}, func(k *vmkit.Called) {
		t.supply = new(big.Int).Add(t.supply, amt)
		t.hold[to] = new(big.Int).Add(t.hold[to], amt)
	})
}

func (m *model) burn(c *C, w *vmkit.World, who, n int, amt *big.Int) {
	t, id := m.tok(n)
	sendOK := t != nil && amt.Sign() > 0 && t.hold[who].Cmp(amt) >= 0
	ok := t != nil && (!t.burn || t.owner == who)
	call(c, w, m, fmt.Sprintf("Burn u%d token %d %v", who, n, amt), who, id, amt, pack("Burn"), sendOK, ok, func(k *vmkit.Called) *ledger.AccountBlock {
		if ok {
			return nil
		}
		return &ledger.AccountBlock{ToAddress: users[who], TokenId: id, Amount: amt}
	}, func(k *vmkit.Called) {
		t.supply = new(big.Int).Sub(t.supply, amt)
		t.hold[who] = new(big.Int).Sub(t.hold[who], amt)
		log := k.Recv.Db.GetLogList()
		if len(log) != 1 || !bytes.HasSuffix(log[0].Data, append(bytes.Repeat([]byte{0}, 32-len(amt.Bytes())), amt.Bytes()...)) {
			c.Fail("C02/event", "burning %v reported %v", amt, log)
		}
	})
}

func (m *model) transfer(c *C, w *vmkit.World, method string, who, n, to int) {
	t, id := m.tok(n)
	ok := t != nil && t.reissue && t.owner == who
	call(c, w, m, fmt.Sprintf("%s u%d token %d to u%d", method, who, n, to), who, vmkit.Vite, new(big.Int), pack(method, id, users[to]), who != to, ok, nil, func(*vmkit.Called) { t.owner = to })
}

func (m *model) disable(c *C, w *vmkit.World, method string, who, n int) {
	t, id := m.tok(n)
	ok := t != nil && t.reissue && t.owner == who
	call(c, w, m, fmt.Sprintf("%s u%d token %d", method, who, n), who, vmkit.Vite, new(big.Int), pack(method, id), true, ok, nil, func(*vmkit.Called) {
		t.reissue, t.burn, t.max = false, false, new(big.Int)
	})
}

func (m *model) query(c *C, w *vmkit.World, who, n int) {
	t, id := m.tok(n)
	x := t
	if x == nil {
		x = &token{supply: new(big.Int), max: new(big.Int)}
	}
	owner := types.Address{}
	if t != nil {
		owner = users[t.owner]
	}
	call(c, w, m, fmt.Sprintf("GetTokenInformation u%d token %d", who, n), who, vmkit.Vite, new(big.Int), pack("GetTokenInformation", id), true, true, func(k *vmkit.Called) *ledger.AccountBlock {
		d, err := abi.ABIAsset.PackCallback("GetTokenInformation", k.Send.Hash, id, t != nil, x.reissue, x.name, x.symbol, x.supply, x.decimals, x.max, x.burn, x.index, owner)
		if err != nil {
			panic(err)
		}
		return &ledger.AccountBlock{ToAddress: users[who], TokenId: vmkit.Vite, Amount: new(big.Int), Data: d}
	}, func(*vmkit.Called) {})
	call(c, w, m, fmt.Sprintf("GetTokenInfo u%d token %d", who, n), who, vmkit.Vite, new(big.Int), pack("GetTokenInfo", id, uint8(3)), true, true, func(k *vmkit.Called) *ledger.AccountBlock {
		d, err := abi.ABIAsset.PackCallback("GetTokenInfo", id, uint8(3), t != nil, x.decimals, x.symbol, x.index, owner)
		if err != nil {
			panic(err)
		}
		return &ledger.AccountBlock{ToAddress: users[who], TokenId: vmkit.Vite, Amount: new(big.Int), Data: d}
	}, func(*vmkit.Called) {})
}

func b(n int64) *big.Int { return big.NewInt(n) }

func main() {
	Main(Suite{Property: "C02", Scenarios: func(tier string) []Scenario {
		d := 0
		if tier == "thorough" {
			d = 1
		}
		return []Scenario{
			{Name: "life", Bound: fmt.Sprintf("every sequence of %d requests out of 16 on one token of each of 3 kinds", 4+d), Body: func(c *C) {
				w, m := world()
				kinds := []issue{{"Coin", "AAA", b(10), b(25), 2, true, false}, {"Coin", "AAA", b(10), b(25), 0, true, true}, {"Coin x", "A1", b(10), b(0), 18, false, false}}
				m.issue(c, w, "IssueToken", 0, kinds[c.Choose(3)])
				for i := 0; i < 4+d; i++ {
					switch c.Choose(16) {
					case 0:
						m.reissue(c, w, "ReIssue", 0, 0, 0, b(5))
					case 1:
						m.reissue(c, w, "Issue", 0, 0, 1, b(10))
					case 2:
						m.reissue(c, w, "ReIssue", 1, 0, 1, b(5))
					case 3:
						m.burn(c, w, 0, 0, b(1))
					case 4:
						m.burn(c, w, 0, 0, b(10))
					case 5:
						m.burn(c, w, 1, 0, b(4))
					case 6:
						m.transfer(c, w, "TransferOwnership", 0, 0, 1)
					case 7:
						m.transfer(c, w, "TransferOwner", 1, 0, 0)
					case 8:
						m.disable(c, w, "DisableReIssue", 0, 0)
					case 9:
						m.disable(c, w, "ChangeTokenType", 1, 0)
					case 10:
						m.issue(c, w, "Mint", 1, issue{"Coin", "AAA", b(0), b(9), 1, true, false})
					case 11:
						m.reissue(c, w, "ReIssue", 1, 1, 0, b(9))
					case 12:
						m.query(c, w, 1, 0)
					case 13:
						if t, id := m.tok(0); t.hold[0].Cmp(b(3)) >= 0 {
							c.Op("pay 3 to u1")
							r := w.Send(users[0], users[1], id, b(3), nil)
							if r.Err != nil {
								c.Fail("C02/pay", "%v", r.Err)
							}
							t.hold[0], t.hold[1] = new(big.Int).Sub(t.hold[0], b(3)), new(big.Int).Add(t.hold[1], b(3))
							w.MustSettle()
						}
					case 14:
						m.transfer(c, w, "TransferOwnership", 1, 1, 0)
					case 15:
						m.reissue(c, w, "ReIssue", 0, 0, 0, new(big.Int).Sub(new(big.Int).Lsh(b(1), 256), b(1)))
					}
					w.Snapshot(1)
					if c.Fresh() {
						check(c, w, m)
					}
				}
				check(c, w, m)
			}},
			{Name: "owners", Bound: fmt.Sprintf("every sequence of %d issues and ownership transfers over 3 tokens", 6+d), Body: func(c *C) {
				w, m := world()
				for i := 0; i < 6+d; i++ {
					switch x := c.Choose(7); {
					case x == 6:
						if len(m.toks) < 4 {
							m.issue(c, w, "IssueToken", i%2, issue{"Coin", "AAA", b(0), b(9), 1, true, false})
						}
					default:
						m.transfer(c, w, "TransferOwnership", x%2, x/2, 1-x%2)
					}
					if c.Fresh() {
						check(c, w, m)
					}
				}
				check(c, w, m)
			}},
			{Name: "issue-params", Bound: "every combination of boundary names, symbols, supplies, maxima and flags", Body: func(c *C) {
				w, m := world()
				names := []string{"", "a", "A_b", "a b", " a", "a ", "a  b", "a1", strings.Repeat("a", 40), strings.Repeat("a", 41), "a-b", "é"}
				syms := []string{"", "A", "A1", "1", "a", "VITE", "VX", "VCP", "VITEX", "ABCDEFGHIJ", "ABCDEFGHIJK", "A B", "A_"}
				max := new(big.Int).Sub(new(big.Int).Lsh(b(1), 256), b(1))
				sup := []*big.Int{b(0), b(1), b(99), b(100), max}
				mx := []*big.Int{b(0), b(99), b(100), max}
				i := issue{name: "Coin", symbol: "AAA"}
				if x := c.Choose(2); x == 0 {
					i.name, i.symbol = names[c.Choose(len(names))], syms[c.Choose(len(syms))]
					i.supply, i.max, i.reissue = b(5), b(5), true
				} else {
					i.supply, i.max, i.reissue, i.burn = sup[c.Choose(len(sup))], mx[c.Choose(len(mx))], c.Bool(), c.Bool()
					i.dec = []uint8{0, 2, 18, 255}[c.Choose(4)]
				}
				m.issue(c, w, []string{"Mint", "IssueToken"}[c.Choose(2)], 0, i)
				check(c, w, m)
			}},
			{Name: "limits", Bound: "symbol index from 998 to 1000, issue fee limits, malformed data of every method, token deposits", Body: func(c *C) {
				w, m := world()
				switch c.Choose(4) {
				case 0:
					d, _ := abi.ABIAsset.PackVariable(abi.VariableNameTokenIndex, uint16(998))
					w.Mut(types.AddressAsset).Stor[string(abi.GetNextTokenIndexKey("AAA"))] = d
					m.next["AAA"] = 998
					for k := 0; k < 4; k++ {
						m.issue(c, w, "IssueToken", 0, issue{"Coin", "AAA", b(3), b(9), 1, true, false})
						w.Snapshot(1)
						check(c, w, m)
					}
				case 1:
					left := []*big.Int{new(big.Int), new(big.Int).Sub(fee, b(1)), fee, new(big.Int).Add(fee, b(1))}[c.Choose(4)]
					w.SetBal(users[0], vmkit.Vite, left)
					w.SetBal(users[1], vmkit.Vite, new(big.Int).Sub(vmkit.V(20000), left))
					m.vite[0], m.vite[1] = left, new(big.Int).Sub(vmkit.V(20000), left)
					m.issue(c, w, "IssueToken", 0, issue{"Coin", "AAA", b(3), b(9), 1, true, false})
					check(c, w, m)
					m.issue(c, w, "IssueToken", 0, issue{"Coin", "AAA", b(3), b(9), 1, true, false})
					check(c, w, m)
				case 2:
					m.issue(c, w, "IssueToken", 0, issue{"Coin", "AAA", b(3), b(9), 1, true, false})
					_, id := m.tok(0)
					l := [][]byte{pack("IssueToken", true, "Coin", "AAA", b(3), uint8(2), b(9), false), pack("ReIssue", id, b(1), users[0]), pack("TransferOwnership", id, users[1]), pack("DisableReIssue", id), pack("GetTokenInfo", id, uint8(1)), pack("GetTokenInformation", id)}
					x := l[c.Choose(len(l))]
					// missing padding zeros at the very end do not make a request ambiguous
					cut := c.Choose(len(bytes.TrimRight(x, "\x00")))
					c.Op("data cut to %d of %d", cut, len(x))
					k := w.Call(users[0], types.AddressAsset, vmkit.Vite, new(big.Int), x[:cut])
					if k.Bad != "" {
						c.Fail("C02/broken", "cut data: %s", k.Bad)
					}
					if k.SendErr == nil {
						c.Fail("C02/malformed", "malformed request accepted")
					}
					check(c, w, m)
				case 3:
					m.issue(c, w, "IssueToken", 0, issue{"Coin", "AAA", b(3), b(9), 1, true, false})
					_, id := m.tok(0)
					l := [][]byte{pack("IssueToken", true, "Coin", "AAA", b(3), uint8(2), b(9), false), pack("ReIssue", id, b(1), users[0]), pack("TransferOwnership", id, users[1]), pack("DisableReIssue", id), pack("GetTokenInfo", id, uint8(1)), pack("GetTokenInformation", id), pack("Burn2", b(1), []byte{1})}
					x := l[c.Choose(len(l))]
					tok := []types.TokenTypeId{vmkit.Vite, id}[c.Choose(2)]
					c.Op("with an amount")
					k := w.Call(users[0], types.AddressAsset, tok, b(2), x)
					if k.Bad != "" || k.SendErr == nil {
						c.Fail("C02/amount", "a request carrying tokens was accepted %s", k.Bad)
					}
					check(c, w, m)
				}
			}},
		}
	}, Assumptions: []string{"all network upgrades active"}})
}
