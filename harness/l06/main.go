// Property L06: the ledger accepts exactly the valid next blocks of an account.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
)

// css accepts the blocks of contracts from one producer only.
type css struct{ CssVerifier }

func (css) VerifyAccountProducer(b *ledger.AccountBlock) (bool, error) {
	return bytes.Equal(b.PublicKey, Producer.Pub), nil
}

var (
	vite    = ledger.ViteTokenId
	strange = types.CreateTokenTypeId([]byte("strange"))
	fresh   = NewAcct(0x31) // has a pending send, no block
	empty   = NewAcct(0x32) // has nothing
	noCode  = types.CreateContractAddress([]byte("nothing there"))
	ten18   = big.NewInt(1e18)
)

func v(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), ten18) }

// state is a ledger with every kind of pending send, and what may follow.
type state struct {
	w        *World
	k        [3]types.Address               // contracts that need 0, 1 and 2 confirmations
	pend     map[string]*ledger.AccountBlock // named sends
	open     map[types.Address][]types.Hash  // sends a user may receive
	want     map[types.Hash]*ledger.AccountBlock // the receive blocks a contract may append, by hash
	bal      map[types.Address]map[types.TokenTypeId]*big.Int
	stake    []byte
	issue    []byte
	bases    []base
	received types.Hash
}

type base struct {
	name string
	b    *ledger.AccountBlock
	key  *Acct
}

func must(c *C, err error) {
	if err != nil {
		c.Fail("L06/setup", "an honest block is refused: %v", err)
	}
}

var cached *state

func get(c *C) *state {
	if cached != nil {
		return cached
	}
	w, err := Open(Options{Dir: MkTemp("l06"), Css: css{}})
	must(c, err)
	s := &state{w: w, pend: map[string]*ledger.AccountBlock{}, open: map[types.Address][]types.Hash{}, want: map[types.Hash]*ledger.AccountBlock{}, bal: map[types.Address]map[types.TokenTypeId]*big.Int{}}
	s.stake, _ = abi.ABIQuota.PackMethod(abi.MethodNameStakeV3, Users[3].Addr)
	s.issue, _ = abi.ABIAsset.PackMethod(abi.MethodNameIssueV2, true, "Token", "TOK", big.NewInt(1000), uint8(2), big.NewInt(2000), false)
	if len(s.stake) == 0 || len(s.issue) == 0 {
		panic("methods")
	}
	snap := func() {
		_, err := w.Snapshot()
		must(c, err)
	}
	for i := 0; i < 2; i++ {
		_, err = w.Deploy(i)
		must(c, err)
		s.k[i] = ContractAddr(i)
	}
	snap()
	cr, err := w.SendMsg(Users[3], CreateMsg(Users[3].Addr, InitCode(ScriptCode()), 2, 0, 10, types.DELEGATE_GID, new(big.Int)))
	must(c, err)
	s.k[2] = cr.ToAddress
	snap()
	snap()
	_, err = w.Receive(cr, Producer)
	must(c, err)
	snap()
	// the third contract and the new user need stake
	for _, a := range []types.Address{s.k[2], fresh.Addr} {
		st, err := w.Send(Users[0], types.AddressQuota, vite, v(10000), pack(s.stake, a))
		must(c, err)
		snap()
		_, err = w.Receive(st, Producer)
		must(c, err)
		snap()
	}
	send := func(name string, from *Acct, to types.Address, tok types.TokenTypeId, amount int64, data []byte) *ledger.AccountBlock {
		b, err := w.Send(from, to, tok, big.NewInt(amount), data)
		must(c, err)
		s.pend[name] = b
		return b
	}
	// two confirmations
	send("k2 old", Users[1], s.k[2], vite, 3, ScriptData(1, 5, ModeStore, Users[2].Addr))
	send("k1 old", Users[1], s.k[1], vite, 4, ScriptData(1, 6, ModeForward, Users[2].Addr))
	snap()
	// one confirmation
	send("k2 new", Users[2], s.k[2], vite, 3, ScriptData(2, 5, ModeStore, Users[2].Addr))
	send("user confirmed", Users[2], Users[1].Addr, vite, 9, []byte("note"))
	send("builtin", Users[0], types.AddressQuota, vite, 0, nil2(c, w, s))
	send("k0 zero revert", Users[3], s.k[0], vite, 0, ScriptData(7, 7, ModeRevert, Users[2].Addr))
	snap()
	d := send("done k0", Users[2], s.k[0], vite, 1, ScriptData(3, 3, ModeStore, Users[2].Addr))
	_, err = w.Receive(d, Producer)
	must(c, err)
	// none
	send("k1 new", Users[2], s.k[1], vite, 4, ScriptData(1, 6, ModeForward, Users[2].Addr))
	send("user unconfirmed", Users[0], Users[1].Addr, vite, 5, nil)
	send("user zero", Users[0], Users[1].Addr, vite, 0, nil)
	send("fresh", Users[0], fresh.Addr, vite, 7, nil)
	send("k0 first", Users[0], s.k[0], vite, 11, ScriptData(1, 8, ModeSplit, Users[2].Addr, AddrWord(Users[3].Addr)...))
	send("k0 second", Users[0], s.k[0], vite, 12, ScriptData(1, 9, ModeStore, Users[2].Addr))
	send("k0 other caller", Users[1], s.k[0], vite, 13, ScriptData(2, 9, ModeRevert, Users[2].Addr))
	d = send("done", Users[0], Users[3].Addr, vite, 6, nil)
	r, err := w.Receive(d, Users[3])
	must(c, err)
	s.received = r.Hash
	d = send("done 1", Users[0], Users[1].Addr, vite, 6, nil)
	_, err = w.Receive(d, Users[1])
	must(c, err)
	for _, n := range []string{"user confirmed", "user unconfirmed", "user zero"} {
		s.open[Users[1].Addr] = append(s.open[Users[1].Addr], s.pend[n].Hash)
	}
	s.open[fresh.Addr] = []types.Hash{s.pend["fresh"].Hash}
	for _, u := range append(append([]*Acct{}, Users...), fresh, empty) {
		m := map[types.TokenTypeId]*big.Int{}
		for _, t := range []types.TokenTypeId{vite, strange, types.ZERO_TOKENID} {
			m[t], err = w.Chain.GetBalance(u.Addr, t)
			must(c, err)
		}
		s.bal[u.Addr] = m
	}
	// honest blocks
	out := func(name string, from *Acct, m *interfaces.IncomingMessage) {
		vb, err := w.GenSend(from, m)
		must(c, err)
		s.bases = append(s.bases, base{name, wire(vb.AccountBlock), from})
	}
	in := func(name string, key *Acct) {
		p := s.pend[name]
		vb, _, _ := w.GenReceive(p.ToAddress, p, key)
		if vb == nil {
			c.Fail("L06/setup", "no receive block for %s", name)
		}
		b := wire(vb.AccountBlock)
		s.bases = append(s.bases, base{"receive " + name, b, key})
		if types.IsContractAddr(p.ToAddress) {
			s.want[b.Hash] = b
		}
	}
	out("transfer", Users[0], Msg(Users[0].Addr, Users[1].Addr, vite, big.NewInt(3), nil))
	out("transfer with data", Users[0], Msg(Users[0].Addr, Users[1].Addr, vite, big.NewInt(3), []byte("text")))
	out("empty transfer", Users[2], Msg(Users[2].Addr, Users[2].Addr, vite, big.NewInt(0), nil))
	out("call", Users[1], Msg(Users[1].Addr, s.k[0], vite, big.NewInt(3), ScriptData(1, 2, ModeStore, Users[2].Addr)))
	out("create", Users[0], CreateMsg(Users[0].Addr, InitCode(ScriptCode()), 1, 0, 10, types.DELEGATE_GID, big.NewInt(0)))
	out("stake", Users[0], Msg(Users[0].Addr, types.AddressQuota, vite, v(200), s.stake))
	out("issue", Users[0], Msg(Users[0].Addr, types.AddressAsset, vite, big.NewInt(0), s.issue))
	in("user confirmed", Users[1])
	in("user unconfirmed", Users[1])
	in("fresh", fresh)
	in("k0 first", Producer)
	in("k0 other caller", Producer)
	in("k0 zero revert", Producer)
	in("k1 old", Producer)
	in("k2 old", Producer)
	in("builtin", Producer)
	// contract receives that come too early: valid only later
	for _, n := range []string{"k0 second", "k1 new", "k2 new"} {
		p := s.pend[n]
		vb, _, _ := w.GenReceive(p.ToAddress, p, Producer)
		if vb != nil {
			s.bases = append(s.bases, base{"early " + n, wire(vb.AccountBlock), Producer})
		}
	}
	// with proof of work
	p := s.bases[0].b.Copy()
	p.AccountAddress = Users[2].Addr
	last, err := w.Chain.GetLatestAccountBlock(Users[2].Addr)
	must(c, err)
	p.PrevHash, p.Height = last.Hash, last.Height+1
	p.Difficulty, p.Nonce = big.NewInt(3), s.nonce(p, 3, true)
	finish(p, Users[2])
	s.bases = append(s.bases, base{"with work", p, Users[2]})
	cached = s
	return s
}

func pack(stake []byte, to types.Address) []byte {
	d, _ := abi.ABIQuota.PackMethod(abi.MethodNameStakeV3, to)
	return d
}

// nil2 is the cancellation of a stake that does not exist: the contract fails and sends nothing.
func nil2(c *C, w *World, s *state) []byte {
	d, err := abi.ABIQuota.PackMethod(abi.MethodNameCancelStakeV3, types.DataHash([]byte("no such stake")))
	must(c, err)
	return d
}

func wire(b *ledger.AccountBlock) *ledger.AccountBlock {
	n, err := Reencode(b)
	if err != nil {
		panic(err)
	}
	return n
}

// worked tells whether a nonce pays for a difficulty, by exact arithmetic.
func worked(b *ledger.AccountBlock, d *big.Int, nonce []byte) bool {
	x, _ := blake2b.New256(nil)
	x.Write(b.AccountAddress.Bytes())
	x.Write(b.PrevHash.Bytes())
	data := x.Sum(nil)
	y, _ := blake2b.New256(nil)
	y.Write(nonce)
	y.Write(data)
	h := new(big.Int).SetBytes(y.Sum(nil))
	l := h.Mul(h, new(big.Int).Add(d, big.NewInt(1)))
	return l.Cmp(new(big.Int).Lsh(d, 256)) >= 0
}

func (s *state) nonce(b *ledger.AccountBlock, d int64, good bool) []byte {
	for i := 0; ; i++ {
		n := []byte{1, 2, 3, 4, 5, 6, byte(i >> 8), byte(i)}
		if worked(b, big.NewInt(d), n) == good {
			return n
		}
	}
}

// finish makes the hashes and the signature fit the content.
func finish(b *ledger.AccountBlock, key *Acct) {
	for i, x := range b.SendBlockList {
		x.Hash = x.ComputeSendHash(b, uint8(i))
	}
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = key.Sign(b.Hash.Bytes())
}

func isUserReceive(t byte) bool { return t == ledger.BlockTypeReceive }

// ok decides from the rules whether the ledger may take the block next.
func (s *state) ok(b *ledger.AccountBlock) (bool, string) {
	no := func(f string, a ...interface{}) (bool, string) { return false, fmt.Sprintf(f, a...) }
	send := b.BlockType == ledger.BlockTypeSendCall || b.BlockType == ledger.BlockTypeSendCreate
	if b.Hash != b.ComputeHash() {
		return no("hash")
	}
	if len(b.PublicKey) != 32 || !ref.EdVerify(b.PublicKey, b.Hash.Bytes(), b.Signature) {
		return no("signature")
	}
	if types.IsContractAddr(b.AccountAddress) {
		w := s.want[b.Hash]
		if w == nil {
			return no("not what the contract does")
		}
		if !bytes.Equal(b.PublicKey, Producer.Pub) {
			return no("producer")
		}
		for i, x := range b.SendBlockList {
			if i >= len(w.SendBlockList) || x.Hash != x.ComputeSendHash(b, uint8(i)) || len(x.Signature) > 0 || len(x.PublicKey) > 0 || x.FromBlockHash != (types.Hash{}) {
				return no("embedded send")
			}
		}
		if b.ToAddress != (types.Address{}) || b.TokenId != types.ZERO_TOKENID || b.Amount != nil && b.Amount.Sign() != 0 || len(b.Nonce) > 0 || b.Difficulty != nil {
			return no("fields of a send")
		}
		return true, ""
	}
	if types.PubkeyToAddress(b.PublicKey) != b.AccountAddress {
		return no("signer")
	}
	last, err := s.w.Chain.GetLatestAccountBlock(b.AccountAddress)
	if err != nil {
		panic(err)
	}
	h, prev := uint64(1), types.Hash{}
	if last != nil {
		h, prev = last.Height+1, last.Hash
	}
	if b.Height != h || b.PrevHash != prev {
		return no("place")
	}
	if (len(b.Nonce) > 0) != (b.Difficulty != nil) {
		return no("work")
	}
	if b.Difficulty != nil && (len(b.Nonce) != 8 || !worked(b, b.Difficulty, b.Nonce)) {
		return no("work")
	}
	if b.LogHash != nil || len(b.SendBlockList) > 0 {
		return no("fields of a contract")
	}
	if !send {
		if b.BlockType != ledger.BlockTypeReceive {
			return no("type")
		}
		if b.ToAddress != (types.Address{}) || b.TokenId != types.ZERO_TOKENID || b.Amount != nil && b.Amount.Sign() != 0 || len(b.Data) > 0 || b.Fee != nil && b.Fee.Sign() != 0 {
			return no("fields of a send")
		}
		for _, o := range s.open[b.AccountAddress] {
			if o == b.FromBlockHash {
				return true, ""
			}
		}
		return no("nothing to receive")
	}
	if b.FromBlockHash != (types.Hash{}) || last == nil {
		return no("fields of a receive")
	}
	if b.Amount.Sign() < 0 || b.Amount.BitLen() > 256 || b.Fee.Sign() < 0 {
		return no("amount")
	}
	fee := new(big.Int)
	switch {
	case b.BlockType == ledger.BlockTypeSendCreate:
		fee = v(10)
		if b.ToAddress != util.NewContractAddress(b.AccountAddress, b.Height, b.PrevHash) {
			return no("contract address")
		}
		if len(b.Data) < 100 || !bytes.Contains(b.Data, ScriptCode()) {
			return no("contract code")
		}
	case b.ToAddress == types.AddressQuota:
		if !bytes.Equal(b.Data, s.stake) || b.TokenId != vite || b.Amount.Cmp(v(134)) < 0 {
			return no("stake")
		}
	case b.ToAddress == types.AddressAsset:
		if !bytes.Equal(b.Data, s.issue) || b.Amount.Sign() != 0 {
			return no("issue")
		}
		fee = v(1000)
	case types.IsContractAddr(b.ToAddress):
		if b.ToAddress != s.k[0] && b.ToAddress != s.k[1] && b.ToAddress != s.k[2] {
			return no("no such contract")
		}
	}
	if b.Fee.Cmp(fee) != 0 {
		return no("fee")
	}
	need := map[types.TokenTypeId]*big.Int{vite: new(big.Int), b.TokenId: new(big.Int)}
	need[b.TokenId].Add(need[b.TokenId], b.Amount)
	need[vite].Add(need[vite], fee)
	for t, n := range need {
		if x := s.bal[b.AccountAddress][t]; x == nil && n.Sign() > 0 || x != nil && x.Cmp(n) < 0 {
			return no("balance")
		}
	}
	return true, ""
}

type mut struct {
	name string
	f    func(b *ledger.AccountBlock)
}

// mutations change one thing about a block.
func (s *state) mutations(base *ledger.AccountBlock, sub bool) []mut {
	var l []mut
	add := func(name string, f func(b *ledger.AccountBlock)) { l = append(l, mut{name, f}) }
	for t := byte(0); t <= 9; t++ {
		t := t
		if t != base.BlockType {
			add(fmt.Sprintf("type %d", t), func(b *ledger.AccountBlock) { b.BlockType = t })
		}
	}
	for _, h := range []uint64{0, 1, 2, base.Height - 1, base.Height + 1, ^uint64(0)} {
		h := h
		if h != base.Height {
			add(fmt.Sprintf("height %d", h), func(b *ledger.AccountBlock) { b.Height = h })
		}
	}
	hashes := map[string]types.Hash{"zero": {}, "unknown": types.DataHash([]byte("unknown")), "received": s.pend["done"].Hash, "received by user 1": s.pend["done 1"].Hash, "received by contract 0": s.pend["done k0"].Hash, "a receive": s.received}
	for n, p := range s.pend {
		hashes[n] = p.Hash
	}
	names := []string{"zero", "unknown", "received", "received by user 1", "received by contract 0", "a receive", "user confirmed", "user unconfirmed", "user zero", "fresh", "k0 first", "k0 second", "k0 other caller", "k0 zero revert", "k1 old", "k1 new", "k2 old", "k2 new", "builtin"}
	for _, n := range names {
		h := hashes[n]
		if h != base.FromBlockHash {
			add("from "+n, func(b *ledger.AccountBlock) { b.FromBlockHash = h })
		}
	}
	last := func(a types.Address) types.Hash {
		x, _ := s.w.Chain.GetLatestAccountBlock(a)
		if x == nil {
			return types.Hash{}
		}
		return x.Hash
	}
	for n, h := range map[string]types.Hash{"zero": {}, "unknown": hashes["unknown"], "of user 3": last(Users[3].Addr)} {
		h := h
		if h != base.PrevHash {
			add("previous "+n, func(b *ledger.AccountBlock) { b.PrevHash = h })
		}
	}
	if p, _ := s.w.Chain.GetAccountBlockByHash(base.PrevHash); p != nil && p.PrevHash != (types.Hash{}) {
		add("previous of previous", func(b *ledger.AccountBlock) { b.PrevHash = p.PrevHash })
		add("instead of previous", func(b *ledger.AccountBlock) { b.PrevHash, b.Height = p.PrevHash, p.Height })
	}
	for n, a := range map[string]types.Address{"user 1": Users[1].Addr, "fresh": fresh.Addr, "empty": empty.Addr, "contract 0": s.k[0], "no contract": noCode, "quota": types.AddressQuota} {
		n, a := n, a
		if a != base.AccountAddress {
			add("account "+n, func(b *ledger.AccountBlock) { b.AccountAddress = a })
			// in place on the other account's chain
			add("account and place of "+n, func(b *ledger.AccountBlock) {
				b.AccountAddress, b.PrevHash, b.Height = a, types.Hash{}, 1
				if x, _ := s.w.Chain.GetLatestAccountBlock(a); x != nil {
					b.PrevHash, b.Height = x.Hash, x.Height+1
				}
			})
		}
	}
	for n, a := range map[string]types.Address{"zero": {}, "user 2": Users[2].Addr, "itself": base.AccountAddress, "contract 1": s.k[1], "no contract": noCode, "quota": types.AddressQuota, "asset": types.AddressAsset, "unborn": empty.Addr} {
		n, a := n, a
		if a != base.ToAddress {
			add("to "+n, func(b *ledger.AccountBlock) { b.ToAddress = a })
		}
	}
	full := new(big.Int)
	if m := s.bal[base.AccountAddress]; m != nil {
		full = m[vite]
	}
	amounts := map[string]*big.Int{"0": new(big.Int), "1": big.NewInt(1), "-1": big.NewInt(-1), "200 vite": v(200), "all": full, "too much": new(big.Int).Add(full, big.NewInt(1)), "2^255": new(big.Int).Lsh(big.NewInt(1), 255), "2^256-1": new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), "2^256+1": new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))}
	for n, x := range amounts {
		n, x := n, x
		if base.Amount == nil || x.Cmp(base.Amount) != 0 {
			add("amount "+n, func(b *ledger.AccountBlock) { b.Amount = new(big.Int).Set(x) })
		}
		if n != "200 vite" && n != "2^255" {
			add("fee "+n, func(b *ledger.AccountBlock) { b.Fee = new(big.Int).Set(x) })
		}
	}
	add("fee 10 vite", func(b *ledger.AccountBlock) { b.Fee = v(10) })
	for n, t := range map[string]types.TokenTypeId{"zero": types.ZERO_TOKENID, "unknown": strange, "vite": vite} {
		t := t
		if t != base.TokenId {
			add("token "+n, func(b *ledger.AccountBlock) { b.TokenId = t })
		}
	}
	for n, d := range map[string][]byte{"none": nil, "x": []byte("x"), "stake": s.stake, "issue": s.issue, "result 0": append(make([]byte, 32), 0), "result 1": append(make([]byte, 32), 1)} {
		d := d
		if !bytes.Equal(d, base.Data) {
			add("data "+n, func(b *ledger.AccountBlock) { b.Data = append([]byte(nil), d...) })
		}
	}
	if len(base.Data) == 33 {
		add("data result", func(b *ledger.AccountBlock) {
			if len(b.Data) == 33 {
				b.Data = append(append([]byte(nil), b.Data[:32]...), b.Data[32]^1)
			}
		})
		add("data receipt", func(b *ledger.AccountBlock) {
			if len(b.Data) == 33 {
				b.Data = append([]byte(nil), b.Data...)
				b.Data[31] ^= 1
			}
		})
	}
	add("quota", func(b *ledger.AccountBlock) { b.Quota, b.QuotaUsed = 1, 2 })
	add("quota max", func(b *ledger.AccountBlock) { b.Quota, b.QuotaUsed = ^uint64(0), ^uint64(0) })
	add("log hash", func(b *ledger.AccountBlock) { h := hashes["unknown"]; b.LogHash = &h })
	if base.LogHash != nil {
		add("no log hash", func(b *ledger.AccountBlock) { b.LogHash = nil })
	}
	add("nonce only", func(b *ledger.AccountBlock) { b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8} })
	add("difficulty only", func(b *ledger.AccountBlock) { b.Difficulty, b.Nonce = big.NewInt(3), nil })
	for _, d := range []int64{1, 3, 200} {
		for _, good := range []bool{true, false} {
			d, good := d, good
			add(fmt.Sprintf("work %d %v", d, good), func(b *ledger.AccountBlock) { b.Difficulty, b.Nonce = big.NewInt(d), s.nonce(b, d, good) })
		}
	}
	add("long nonce", func(b *ledger.AccountBlock) {
		for i := 0; ; i++ {
			n := []byte{1, 2, 3, 4, 5, 6, 7, 8, byte(i)}
			if worked(b, big.NewInt(3), n) {
				b.Difficulty, b.Nonce = big.NewInt(3), n
				return
			}
		}
	})
	// embedded sends that nobody made
	mk := func(from, to types.Address, amount int64) *ledger.AccountBlock {
		return &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: from, ToAddress: to, Amount: big.NewInt(amount), TokenId: vite, Fee: new(big.Int)}
	}
	add("extra send of its own", func(b *ledger.AccountBlock) {
		b.SendBlockList = append(append([]*ledger.AccountBlock{}, b.SendBlockList...), mk(b.AccountAddress, Users[2].Addr, 1))
	})
	add("extra empty send", func(b *ledger.AccountBlock) {
		b.SendBlockList = append(append([]*ledger.AccountBlock{}, b.SendBlockList...), mk(b.AccountAddress, Users[2].Addr, 0))
	})
	add("extra send of a contract", func(b *ledger.AccountBlock) {
		b.SendBlockList = append(append([]*ledger.AccountBlock{}, b.SendBlockList...), mk(s.k[0], Users[2].Addr, 1))
	})
	add("extra refund", func(b *ledger.AccountBlock) {
		x := mk(b.AccountAddress, Users[2].Addr, 1)
		x.BlockType = ledger.BlockTypeSendRefund
		b.SendBlockList = append(append([]*ledger.AccountBlock{}, b.SendBlockList...), x)
	})
	if n := len(base.SendBlockList); n > 0 {
		add("no sends", func(b *ledger.AccountBlock) { b.SendBlockList = nil })
		add("last send missing", func(b *ledger.AccountBlock) {
			if len(b.SendBlockList) > 0 {
				b.SendBlockList = b.SendBlockList[:len(b.SendBlockList)-1]
			}
		})
		add("send twice", func(b *ledger.AccountBlock) {
			if len(b.SendBlockList) > 0 {
				b.SendBlockList = append(b.SendBlockList, b.SendBlockList[0].Copy())
			}
		})
		if n > 1 {
			add("sends swapped", func(b *ledger.AccountBlock) {
				if len(b.SendBlockList) > 1 {
					b.SendBlockList[0], b.SendBlockList[1] = b.SendBlockList[1], b.SendBlockList[0]
				}
			})
		}
		for i := 0; i < n; i++ {
			i := i
			for _, m := range []mut{
				{"amount", func(x *ledger.AccountBlock) { x.Amount = new(big.Int).Add(x.Amount, big.NewInt(1)) }},
				{"to", func(x *ledger.AccountBlock) { x.ToAddress = Users[1].Addr }},
				{"account", func(x *ledger.AccountBlock) { x.AccountAddress = s.k[1] }},
				{"user account", func(x *ledger.AccountBlock) { x.AccountAddress = Users[1].Addr }},
				{"token", func(x *ledger.AccountBlock) { x.TokenId = strange }},
				{"data", func(x *ledger.AccountBlock) { x.Data = []byte("y") }},
				{"type", func(x *ledger.AccountBlock) { x.BlockType = ledger.BlockTypeSendRefund }},
				{"receive", func(x *ledger.AccountBlock) { x.BlockType, x.FromBlockHash = ledger.BlockTypeReceive, hashes["fresh"] }},
				{"fee", func(x *ledger.AccountBlock) { x.Fee = big.NewInt(1) }},
				{"height", func(x *ledger.AccountBlock) { x.Height = 1 }},
				{"from", func(x *ledger.AccountBlock) { x.FromBlockHash = hashes["fresh"] }},
				{"log", func(x *ledger.AccountBlock) { h := hashes["fresh"]; x.LogHash = &h }},
				{"nested", func(x *ledger.AccountBlock) { x.SendBlockList = []*ledger.AccountBlock{mk(x.AccountAddress, Users[2].Addr, 1)} }},
				{"signed", func(x *ledger.AccountBlock) { x.Signature, x.PublicKey, _ = Users[0].Sign([]byte("x")) }},
			} {
				m := m
				add(fmt.Sprintf("send %d %s", i, m.name), func(b *ledger.AccountBlock) {
					if i < len(b.SendBlockList) {
						m.f(b.SendBlockList[i])
					}
				})
			}
		}
	}
	return l
}

// seals are the ways to hash and sign a changed block.
var seals = []struct {
	name string
	f    func(s *state, b *ledger.AccountBlock, key *Acct)
}{
	{"signed", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key) }},
	{"signed by another", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, Users[3]) }},
	{"signed by the account 1", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, Users[1]) }},
	{"signature of another", func(s *state, b *ledger.AccountBlock, key *Acct) {
		finish(b, key)
		b.Signature, _, _ = Users[3].Sign(b.Hash.Bytes())
	}},
	{"no signature", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.Signature = nil }},
	{"no key", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.PublicKey = nil }},
	{"neither", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.PublicKey, b.Signature = nil, nil }},
	{"half a signature", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.Signature = b.Signature[:32] }},
	{"half a key", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.PublicKey = b.PublicKey[:16] }},
	{"changed signature", func(s *state, b *ledger.AccountBlock, key *Acct) { finish(b, key); b.Signature[40] ^= 4 }},
	{"old hash and signature", func(s *state, b *ledger.AccountBlock, key *Acct) {}},
	{"old hash", func(s *state, b *ledger.AccountBlock, key *Acct) { b.Signature, b.PublicKey, _ = key.Sign(b.Hash.Bytes()) }},
	{"new hash, old signature", func(s *state, b *ledger.AccountBlock, key *Acct) { b.Hash = b.ComputeHash() }},
	{"zero hash", func(s *state, b *ledger.AccountBlock, key *Acct) {
		b.Hash = types.Hash{}
		b.Signature, b.PublicKey, _ = key.Sign(b.Hash.Bytes())
	}},
	{"old hashes of sends", func(s *state, b *ledger.AccountBlock, key *Acct) {
		b.Hash = b.ComputeHash()
		b.Signature, b.PublicKey, _ = key.Sign(b.Hash.Bytes())
	}},
	{"hash of another type", func(s *state, b *ledger.AccountBlock, key *Acct) {
		t := b.BlockType
		b.BlockType = ledger.BlockTypeReceiveError
		b.Hash = b.ComputeHash()
		b.BlockType = t
		b.Signature, b.PublicKey, _ = key.Sign(b.Hash.Bytes())
	}},
}

func panicked(f func() error) (err error, p interface{}) {
	defer func() { p = recover() }()
	return f(), nil
}

// try gives a block to the ledger in all ways and compares the verdicts with the rules.
func (s *state) try(c *C, what string, b *ledger.AccountBlock) {
	sb := s.w.Chain.GetLatestSnapshotBlock()
	forms := []*ledger.AccountBlock{b}
	if n, err := Reencode(b); err == nil {
		forms = append(forms, n)
	}
	for i, x := range forms {
		where := []string{"given directly", "from the network"}[i]
		want, why := s.ok(x)
		var res [2]*interfaces.VmAccountBlock
		for k, path := range []func(x *ledger.AccountBlock) error{
			func(x *ledger.AccountBlock) error {
				if err := s.w.V.VerifyNetAccountBlock(x); err != nil {
					return err
				}
				task, vb, err := s.w.V.VerifyPoolAccountBlock(x, sb)
				if err == nil && task != nil {
					return ErrPending
				}
				if err == nil && vb == nil {
					return fmt.Errorf("no result")
				}
				res[0] = vb
				return err
			},
			func(x *ledger.AccountBlock) error {
				vb, err := s.w.V.VerifyRPCAccountBlock(x, sb)
				res[1] = vb
				return err
			},
		} {
			y := x.Copy()
			err, p := panicked(func() error { return path(y) })
			by := []string{"the pool", "the interface"}[k]
			if p != nil {
				c.Fail("L06/panic", "%s, %s: %s panics: %v", what, where, by, p)
			}
			if (err == nil) != want {
				if want {
					c.Fail("L06/refused", "%s, %s: %s refuses a valid block: %v", what, where, by, err)
				}
				c.Fail("L06/accepted", "%s, %s: %s accepts an invalid block (%s): %s", what, where, by, why, JSON(x))
			}
			if err == nil {
				r := res[k].AccountBlock
				if r.Hash != x.Hash || r.ComputeHash() != x.Hash || r.BlockType != x.BlockType || r.Height != x.Height || r.PrevHash != x.PrevHash || r.AccountAddress != x.AccountAddress || !bytes.Equal(r.Signature, x.Signature) || !bytes.Equal(r.PublicKey, x.PublicKey) || len(r.SendBlockList) != len(x.SendBlockList) {
					c.Fail("L06/result", "%s, %s: the verified block differs: %s, given %s", what, where, JSON(r), JSON(x))
				}
				s.effect(c, what, x, res[k])
			}
		}
		c.AddTransitions(1)
	}
}

// effect checks what an accepted block of a user does to its balances.
func (s *state) effect(c *C, what string, b *ledger.AccountBlock, r *interfaces.VmAccountBlock) {
	if types.IsContractAddr(b.AccountAddress) {
		return
	}
	d := map[types.TokenTypeId]*big.Int{}
	add := func(t types.TokenTypeId, n *big.Int) {
		if d[t] == nil {
			d[t] = new(big.Int)
		}
		d[t].Add(d[t], n)
	}
	if b.IsSendBlock() {
		add(b.TokenId, new(big.Int).Neg(b.Amount))
		add(vite, new(big.Int).Neg(b.Fee))
	} else {
		p, _ := s.w.Chain.GetAccountBlockByHash(b.FromBlockHash)
		add(p.TokenId, p.Amount)
	}
	for t, n := range d {
		have, err := r.VmDb.GetBalance(&t)
		if err != nil {
			panic(err)
		}
		want := new(big.Int).Add(s.bal[b.AccountAddress][t], n)
		if have.Cmp(want) != 0 {
			c.Fail("L06/balance", "%s: the balance becomes %v, should be %v", what, have, want)
		}
	}
	for t := range r.VmDb.GetUnsavedBalanceMap() {
		if d[t] == nil {
			c.Fail("L06/balance", "%s: the balance of %v changes", what, t)
		}
	}
}

func pairs(group int) Scenario {
	return Scenario{Name: fmt.Sprintf("changes-%d", group), Bound: "every honest block with every one and every two of its fields changed, signed by its owner", Timeout: 5 * time.Minute, Body: func(c *C) {
		s := get(c)
		n := 0
		for range s.bases {
			n++
		}
		i := c.Choose((n+1)/2)*2 + group
		if i >= n {
			c.Prune()
		}
		bs := s.bases[i]
		c.Op("%s", bs.name)
		ms := sorted(s.mutations(bs.b, true))
		j := c.Choose(len(ms)+1) - 1
		if j < 0 {
			s.try(c, bs.name, bs.b.Copy())
			c.State()
			return
		}
		for k := j; k < len(ms); k++ {
			b := bs.b.Copy()
			ms[j].f(b)
			name := bs.name + ", " + ms[j].name
			if k > j {
				ms[k].f(b)
				name += ", " + ms[k].name
			}
			if b.Amount == nil && (b.IsSendBlock() || b.BlockType == ledger.BlockTypeGenesisReceive) {
				b.Amount = new(big.Int)
			}
			for _, x := range b.SendBlockList {
				if x.Amount == nil { // encoding needs a number
					x.Amount = new(big.Int)
				}
			}
			key := bs.key
			for _, u := range append(append([]*Acct{}, Users...), fresh, empty) {
				if u.Addr == b.AccountAddress {
					key = u
				}
			}
			if types.IsContractAddr(b.AccountAddress) {
				key = Producer
			}
			finish(b, key)
			s.try(c, name, b)
		}
		c.State()
	}}
}

func sealed() Scenario {
	return Scenario{Name: "seals", Bound: "every honest block with at most one field changed, hashed and signed in 16 ways", Timeout: 5 * time.Minute, Body: func(c *C) {
		s := get(c)
		bs := s.bases[c.Choose(len(s.bases))]
		ms := append([]mut{{"unchanged", func(*ledger.AccountBlock) {}}}, sorted(s.mutations(bs.b, true))...)
		sl := seals[c.Choose(len(seals))]
		c.Op("%s, %s", bs.name, sl.name)
		for _, m := range ms {
			b := bs.b.Copy()
			m.f(b)
			if b.Amount == nil && (b.IsSendBlock() || b.BlockType == ledger.BlockTypeGenesisReceive) {
				b.Amount = new(big.Int)
			}
			sl.f(s, b, bs.key)
			s.try(c, bs.name+", "+m.name+", "+sl.name, b)
		}
		c.State()
	}}
}

func sorted(l []mut) []mut {
	for i := range l {
		for j := i; j > 0 && l[j].name < l[j-1].name; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func main() {
	Silence()
	Main(Suite{Property: "L06", QuickBudget: 200 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		return []Scenario{pairs(0), pairs(1), sealed()}
	}})
}
