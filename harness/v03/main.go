// Property V03: a contract call takes effect completely or not at all, and tokens are conserved.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var bench *vmkit.Bench

func bn() *vmkit.Bench {
	if bench == nil {
		bench = vmkit.NewBench()
	}
	return bench
}

func bi(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

var tok2 = types.TokenTypeId{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}

// effects a program may have before it ends
func effects(b *vmkit.Bench) [][]byte {
	a := func() *vmkit.Asm { return &vmkit.Asm{} }
	return [][]byte{
		{},
		a().I(7).I(0).Op(0x55).B,       // overwrite
		a().I(0).I(1).Op(0x55).B,       // clear
		a().I(3).I(9).Op(0x55).B,       // new slot
		a().I(7).I(32).I(0).Op(0xa1).B, // event
		a().I(0).I(0).I(5).Push(bi(vmkit.Vite.Bytes())).Addr(b.Friend).Op(0xf1).B,
		a().I(0).I(0).I(6).Push(bi(b.Tok2.Bytes())).Addr(b.Other).Op(0xf1).B,
		a().I(32).I(0).I(0).Push(bi(b.Tok2.Bytes())).Addr(b.Self).Op(0xf1).B,
	}
}

func endings(b *vmkit.Bench) [][]byte {
	a := func() *vmkit.Asm { return &vmkit.Asm{} }
	return [][]byte{
		{},                                      // success
		a().I(0).I(0).Op(0xfd).B,                // revert
		a().I(32).I(0).Op(0xfd).B,               // revert with data
		{0xfe},                                  // invalid
		{0x01},                                  // underflow
		a().I(0).Op(0x56).B,                     // bad jump
		{0x5b, 0x58, 0x60, 1, 0x90, 0x03, 0x56}, // endless loop until the quota is gone
		a().I(0).I(0).I(2000).Push(bi(vmkit.Vite.Bytes())).Addr(b.Friend).Op(0xf1).B, // sends more than it has
		a().I(0).I(0).I(0).Push(bi(vmkit.Vite.Bytes())).Addr(b.Ghost).Op(0xf1).B,     // contract that does not exist
		a().I(1).Push(new(big.Int).Lsh(big.NewInt(1), 70)).Op(0x52).B,                // memory overflow
	}
}

func dump(w *vmkit.World) string {
	var s bytes.Buffer
	for _, a := range watched {
		fmt.Fprintf(&s, "%v %v %v %v|", a, w.Bal(a, vmkit.Vite), w.Bal(a, tok2), w.StorageOf(a))
	}
	fmt.Fprintf(&s, "%d", len(w.OnRoad))
	return s.String()
}

var users = []types.Address{vmkit.User(1), vmkit.User(2)}
var cons = []types.Address{vmkit.ContractAddr(11), vmkit.ContractAddr(12), vmkit.ContractAddr(13), vmkit.ContractAddr(14)}
var watched = append(append([]types.Address{}, users...), cons...)

func world() *vmkit.World {
	vmkit.Init(nil)
	w := vmkit.New()
	a := func() *vmkit.Asm { return &vmkit.Asm{} }
	put := func(as *vmkit.Asm, to types.Address, amt func(*vmkit.Asm)) *vmkit.Asm { // CALL(to, token of the call, amt)
		as.I(0).I(0)
		amt(as)
		return as.Op(0x46).Addr(to).Op(0xf1)
	}
	val := func(x *vmkit.Asm) { x.Op(0x34) }
	valp := func(x *vmkit.Asm) { x.I(1).Op(0x34).Op(0x01) }
	count := func(x *vmkit.Asm) *vmkit.Asm { return x.I(0).Op(0x54).I(1).Op(0x01).I(0).Op(0x55) }
	// 0: counts and forwards everything to contract 1
	w.SetCode(cons[0], put(count(a()), cons[1], val).B)
	// 1: counts, logs, pays user 1, fails when it received exactly 3
	c1 := put(count(a()).I(0).I(0).Op(0xa0), users[1], val).I(3).Op(0x34).Op(0x14)
	end := len(c1.B) + 3 + 1 + 1 + 1
	c1.Op(0x61, byte(end>>8), byte(end)).Op(0x57).Op(0x00, 0x00)
	for len(c1.B) < end {
		c1.Op(0x00)
	}
	c1.Op(0x5b).I(0).I(0).Op(0xfd)
	w.SetCode(cons[1], c1.B)
	// 2: counts and sends one more than it received
	w.SetCode(cons[2], put(count(a()), users[1], valp).B)
	// 3: counts and loops for ever
	c3 := count(a())
	l := byte(len(c3.B))
	w.SetCode(cons[3], c3.Op(0x5b, 0x60, l, 0x56).B)
	w.SetBal(users[0], vmkit.Vite, big.NewInt(100))
	w.SetBal(users[0], tok2, big.NewInt(50))
	w.SetBal(cons[2], tok2, big.NewInt(1))
	w.Snapshot(3)
	w.QuotaList = []types.QuotaInfo{{QuotaTotal: 3571*280 - 90000}}
	return w
}

func firstTo(w *vmkit.World, a types.Address) *ledger.AccountBlock {
	for _, s := range w.OnRoad {
		if s.ToAddress == a {
			return s
		}
	}
	return nil
}

func main() {
	Main(Suite{Property: "V03", Scenarios: func(tier string) []Scenario {
		n := 3
		if tier == "thorough" {
			n = 4
		}
		return []Scenario{
			{Name: "one-call", Bound: fmt.Sprintf("every program of up to %d effects followed by every way of ending, for every amount, token and fee", n), Body: func(c *C) {
				b := bn()
				ef, en := effects(b), endings(b)
				e := c.Choose(len(en))
				f := c.Choose(len(ef))
				c.Op("ending %d first effect %d", e, f)
				cnt := 1
				for i := 1; i < n; i++ {
					cnt *= len(ef)
				}
				for x := 0; x < cnt; x++ {
					code := append([]byte{}, ef[f]...)
					for i, y := 1, x; i < n; i++ {
						code = append(code, ef[y%len(ef)]...)
						y /= len(ef)
					}
					// bad jumps must stay bad: the landing marks of the loop are never at 0
					code = append(code, en[e]...)
					for _, amt := range []int64{0, 4} {
						for _, t := range []types.TokenTypeId{vmkit.Vite, b.Tok2} {
							for _, fee := range []int64{0, 10} {
								cs := vmkit.Case{Code: code, Data: []byte{1}, Token: t, Amount: amt, Fee: fee, Quota: 150000, Store: map[string][]byte{vmkit.Key32(0): {1}, vmkit.Key32(1): {2}}}
								if e == 6 {
									cs.Quota = 60000 + 21000
								}
								o, d := b.Diff(&cs)
								c.AddStates(1)
								c.AddTransitions(o.Steps)
								if d != "" {
									c.Fail("V03/one-call", "code %x amount %d token %v fee %d: %s", code, amt, t, fee, d)
								}
							}
						}
					}
				}
			}},
			{Name: "histories", Bound: "every sequence of 6 (thorough 7) sends, receives and snapshots over four contracts that forward, fail, overspend and loop", Body: func(c *C) {
				w := world()
				depth := 6
				if tier == "thorough" {
					depth = 7
				}
				tv, tt := w.Total(vmkit.Vite), w.Total(tok2)
				for i := 0; i < depth; i++ {
					type op struct {
						name string
						f    func()
					}
					var ops []op
					send := func(j int, t types.TokenTypeId, amt int64) {
						ops = append(ops, op{fmt.Sprintf("send %d to c%d", amt, j), func() {
							if r := w.Send(users[0], cons[j], t, big.NewInt(amt), nil); r.Err != nil || r.Panic != nil {
								c.Fail("V03/send", "send failed: %v %v", r.Err, r.Panic)
							}
						}})
					}
					if len(w.OnRoad) < 3 && i < depth-1 {
						send(0, vmkit.Vite, 3)
						send(0, tok2, 2)
						send(2, vmkit.Vite, 1)
						send(2, tok2, 1)
						send(3, vmkit.Vite, 2)
					}
					for _, a := range watched {
						if s := firstTo(w, a); s != nil {
							a, s := a, s
							ops = append(ops, op{fmt.Sprintf("receive at %x", a[:2]), func() { receive(c, w, a, s) }})
						}
					}
					uncon := false
					for _, x := range w.Acc {
						uncon = uncon || len(x.Uncon) > 0
					}
					if uncon {
						ops = append(ops, op{"snapshot", func() { w.Snapshot(1) }})
					}
					if len(ops) == 0 {
						return
					}
					o := ops[c.Choose(len(ops))]
					c.Op("%s", o.name)
					o.f()
					if !c.Fresh() {
						continue
					}
					c.State()
					if g := w.Total(vmkit.Vite); g.Cmp(tv) != 0 {
						c.Fail("V03/total", "total VITE is %v, was %v", g, tv)
					}
					if g := w.Total(tok2); g.Cmp(tt) != 0 {
						c.Fail("V03/total", "total of the second token is %v, was %v", g, tt)
					}
					for a, x := range w.Acc {
						for t, v := range x.Bal {
							if v.Sign() < 0 {
								c.Fail("V03/negative", "balance of %v %v is %v", a, t, v)
							}
						}
					}
				}
			}},
			{Name: "creation", Bound: "every creation request of 9 init codes, 3 amounts, 2 tokens and boundary header bytes", Body: func(c *C) { creation(c) }},
			{Name: "call-depth", Bound: "chains of calls around the depth limit", Body: func(c *C) {
				w := world()
				d := []uint16{0, 1, 510, 511, 512, 513, 65535}[c.Choose(7)]
				amt := int64(3 * c.Choose(2))
				r := w.Send(users[0], cons[0], vmkit.Vite, big.NewInt(amt), nil)
				w.Depth[r.Block.Hash] = d
				c.Op("depth %d amount %d", d, amt)
				before := w.StorageOf(cons[0])
				rr := w.Receive(r.Block)
				c.State()
				if rr.Panic != nil || rr.Block == nil {
					c.Fail("V03/depth", "depth %d: %v %v", d, rr.Panic, rr.Err)
				}
				if d >= 512 {
					// the chain of calls ends: no code runs, nothing is sent, the amount stays with the contract
					if rr.Block.Data[32] != 2 || len(rr.Block.SendBlockList) != 0 || fmt.Sprint(w.StorageOf(cons[0])) != fmt.Sprint(before) || w.Bal(cons[0], vmkit.Vite).Int64() != amt || rr.Block.QuotaUsed != 0 {
						c.Fail("V03/depth", "depth %d: data %x sends %d balance %v", d, rr.Block.Data, len(rr.Block.SendBlockList), w.Bal(cons[0], vmkit.Vite))
					}
				} else {
					if rr.Block.Data[32] != 0 || len(rr.Block.SendBlockList) != 1 || w.Bal(cons[0], vmkit.Vite).Sign() != 0 {
						c.Fail("V03/depth", "depth %d: data %x sends %d", d, rr.Block.Data, len(rr.Block.SendBlockList))
					}
				}
			}},
		}
	}, Assumptions: []string{"all network upgrades active", "the ledger underneath is an in-memory implementation of the chain interface of vm_db"}})
}

func receive(c *C, w *vmkit.World, a types.Address, s *ledger.AccountBlock) {
	before := dump(w)
	balV, balT, st := new(big.Int).Set(w.Bal(a, vmkit.Vite)), new(big.Int).Set(w.Bal(a, tok2)), fmt.Sprint(w.StorageOf(a))
	hadUncon := len(w.Mut(a).Uncon) > 0
	r := w.Receive(s)
	if r.Panic != nil {
		c.Fail("V03/panic", "receive panicked: %v", r.Panic)
	}
	if r.Block == nil {
		// not possible now; nothing may have happened
		if !r.Retry {
			c.Fail("V03/lost", "receive gave no block and no retry: %v", r.Err)
		}
		if dump(w) != before {
			c.Fail("V03/retry-effect", "a receive put off changed the ledger")
		}
		return
	}
	gain := func(t types.TokenTypeId) *big.Int {
		if s.TokenId == t {
			return s.Amount
		}
		return new(big.Int)
	}
	sent := func(t types.TokenTypeId) *big.Int {
		x := new(big.Int)
		for _, sb := range r.Block.SendBlockList {
			if sb.TokenId == t {
				x.Add(x, sb.Amount)
			}
		}
		return x
	}
	for _, t := range []types.TokenTypeId{vmkit.Vite, tok2} {
		b0 := balV
		if t == tok2 {
			b0 = balT
		}
		want := new(big.Int).Add(b0, gain(t))
		want.Sub(want, sent(t))
		if w.Bal(a, t).Cmp(want) != 0 {
			c.Fail("V03/balance", "balance is %v, expected %v", w.Bal(a, t), want)
		}
	}
	if a == users[0] || a == users[1] || s.BlockType == ledger.BlockTypeSendRefund {
		if len(r.Block.SendBlockList) != 0 || fmt.Sprint(w.StorageOf(a)) != st {
			c.Fail("V03/plain", "a plain receive had effects")
		}
		return
	}
	ok := r.Block.Data[32] == 0
	idx := -1
	for i := range cons {
		if cons[i] == a {
			idx = i
		}
	}
	wantOK := true
	switch idx {
	case 1:
		wantOK = s.Amount.Int64() != 3
	case 2:
		b0 := balV
		if s.TokenId == tok2 {
			b0 = balT
		}
		wantOK = b0.Sign() > 0
	case 3:
		wantOK = false
		if hadUncon {
			c.Fail("V03/no-retry", "out of quota with unconfirmed blocks must be retried")
		}
	}
	if ok != wantOK {
		c.Fail("V03/outcome", "contract %d receive ok=%v, expected %v (%v)", idx, ok, wantOK, r.Err)
	}
	if !ok {
		if fmt.Sprint(w.StorageOf(a)) != st {
			c.Fail("V03/failed-effect", "a failed call changed storage")
		}
		if s.Amount.Sign() > 0 {
			l := r.Block.SendBlockList
			if len(l) != 1 || l[0].BlockType != ledger.BlockTypeSendRefund || l[0].ToAddress != s.AccountAddress || l[0].Amount.Cmp(s.Amount) != 0 || l[0].TokenId != s.TokenId {
				c.Fail("V03/refund", "refund of a failed call is wrong: %d sends", len(l))
			}
		}
	} else if fmt.Sprint(w.StorageOf(a)) == st {
		c.Fail("V03/lost-effect", "a successful call did not count")
	}
}

func creation(c *C) {
	w := world()
	a := func() *vmkit.Asm { return &vmkit.Asm{} }
	inits := [][]byte{
		a().Push(bi([]byte{0x60, 1, 0x60, 0, 0x55})).I(0).Op(0x52).I(5).I(27).Op(0xf3).B, // returns 5 bytes of code
		a().I(9).I(0).Op(0x55).I(32).I(0).Op(0xf3).B,
		a().I(9).I(0).Op(0x55).I(0).I(0).Op(0xfd).B, // reverts
		{0xfe},
		{0x5b, 0x60, 0, 0x56},
		a().I(24575).I(0).Op(0xf3).B,
		a().I(24576).I(0).Op(0xf3).B,
		a().I(0).I(0).Op(0x34).Op(0x46).Addr(users[1]).Op(0xf1).I(1).I(0).Op(0xf3).B,               // forwards the amount
		a().I(0).I(0).I(1).Op(0x34).Op(0x01).Op(0x46).Addr(users[1]).Op(0xf1).I(1).I(0).Op(0xf3).B, // overspends
	}
	i := c.Choose(len(inits))
	amt := []int64{0, 5, 1000}[c.Choose(3)]
	t := []types.TokenTypeId{vmkit.Vite, tok2}[c.Choose(2)]
	hdr := c.Choose(9)
	conf, seed, mult, typ := byte(0), byte(0), byte(10), byte(1)
	gid := types.DELEGATE_GID
	valid := true
	switch hdr {
	case 1:
		conf, seed = 75, 75
	case 2:
		conf, valid = 76, false
	case 3:
		conf, seed, valid = 1, 2, false
	case 4:
		mult, valid = 9, false
	case 5:
		mult, valid = 101, false
	case 6:
		mult = 100
	case 7:
		typ, valid = 2, false
	case 8:
		gid, valid = types.SNAPSHOT_GID, false
	}
	w.SetBal(users[0], vmkit.Vite, new(big.Int).Add(vmkit.V(10), big.NewInt(7)))
	w.SetBal(users[0], tok2, big.NewInt(7))
	w.QuotaList = make([]types.QuotaInfo, 75)
	data := append(append(append([]byte{}, gid.Bytes()...), typ, conf, seed, mult), inits[i]...)
	tv, tt := w.Total(vmkit.Vite), w.Total(tok2)
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCreate, AccountAddress: users[0], TokenId: t, Amount: big.NewInt(amt), Fee: big.NewInt(0), Data: data}
	c.Op("init %d amount %d header %d", i, amt, hdr)
	r := w.Run(b, nil)
	c.State()
	if amt > 7 {
		valid = false
	}
	if r.Panic != nil {
		c.Fail("V03/create", "panic %v", r.Panic)
	}
	if (r.Err == nil && r.Block != nil) != valid {
		c.Fail("V03/create", "request accepted=%v (%v), expected %v", r.Err == nil, r.Err, valid)
	}
	if !valid {
		return
	}
	w.Commit(r)
	addr := r.Block.ToAddress
	if !types.IsContractAddr(addr) || r.Block.Fee.Cmp(vmkit.V(10)) != 0 {
		c.Fail("V03/create", "address %v fee %v", addr, r.Block.Fee)
	}
	m, _ := w.GetContractMeta(addr)
	if m == nil || m.Gid != gid || m.SendConfirmedTimes != conf || m.SeedConfirmedTimes != seed || m.QuotaRatio != mult {
		c.Fail("V03/create", "meta %+v", m)
	}
	w.Snapshot(2)
	rr := w.Receive(r.Block)
	if rr.Panic != nil || rr.Block == nil {
		c.Fail("V03/create", "creation not received: %v %v", rr.Panic, rr.Err)
	}
	ok := map[int]bool{0: true, 1: true, 5: true, 7: true}[i]
	want := []byte(nil)
	switch i {
	case 0:
		want = []byte{1, 0x60, 1, 0x60, 0, 0x55}
	case 1:
		want = append([]byte{1}, make([]byte, 32)...)
	case 5:
		want = append([]byte{1}, make([]byte, 24575)...)
	case 7:
		want = []byte{1, 0}
	}
	code, _ := w.GetContractCode(addr)
	if (rr.Block.Data[32] == 0) != ok || !bytes.Equal(code, want) {
		c.Fail("V03/create", "created=%v code %d bytes, expected %v %d bytes (%v)", rr.Block.Data[32] == 0, len(code), ok, len(want), rr.Err)
	}
	if !ok {
		if len(w.StorageOf(addr)) != 0 || w.Bal(addr, t).Sign() != 0 {
			c.Fail("V03/create-effect", "failed creation left effects")
		}
		if amt > 0 && (len(rr.Block.SendBlockList) != 1 || rr.Block.SendBlockList[0].Amount.Int64() != amt || rr.Block.SendBlockList[0].ToAddress != users[0] || rr.Block.SendBlockList[0].TokenId != t) {
			c.Fail("V03/create-refund", "refund wrong")
		}
	} else if i == 1 && len(w.StorageOf(addr)) != 1 {
		c.Fail("V03/create-effect", "constructor storage lost")
	}
	burn := vmkit.V(10)
	if w.Total(vmkit.Vite).Cmp(new(big.Int).Sub(tv, burn)) != 0 || w.Total(tok2).Cmp(tt) != 0 {
		c.Fail("V03/create-total", "totals %v %v", w.Total(vmkit.Vite), w.Total(tok2))
	}
	// a second receive of the creation on the same address is refused
	if i == 0 {
		r2 := w.Run(&ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: addr, FromBlockHash: r.Block.Hash}, r.Block)
		if r2.Block != nil {
			c.Fail("V03/create-twice", "an existing contract was created again")
		}
	}
	_ = ref.OK
}
