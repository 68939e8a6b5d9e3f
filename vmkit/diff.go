package vmkit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
)

// Bench executes contract programs on the real VM and on the reference and compares the outcomes.
type Bench struct {
	W              *World
	Self, Other    types.Address // contract under test; another contract (quota multiplier 1.5)
	Ghost          types.Address // contract address without contract
	Caller, Friend types.Address
	Tok2           types.TokenTypeId
	Quirks         bool
	n              uint64
}

const maxSection = 3571 * 280

// NewBench builds the bench ledger.
func NewBench() *Bench {
	Init(nil)
	b := &Bench{W: New(), Self: ContractAddr(1), Other: ContractAddr(2), Ghost: ContractAddr(3), Caller: User(1), Friend: User(2), Quirks: true}
	b.Tok2 = types.TokenTypeId{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
	w := b.W
	w.SetCode(b.Other, []byte{0})
	w.Meta[b.Other].QuotaRatio = 15
	w.SetCode(b.Self, []byte{0})
	w.Snapshot(5)
	w.NoUncon = true
	w.SetBal(b.Self, Vite, big.NewInt(1000))
	w.SetBal(b.Self, b.Tok2, big.NewInt(77))
	x := w.Mut(b.Self)
	h, _ := types.BytesToHash(bytes.Repeat([]byte{0xab}, 32))
	x.Latest = &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: b.Self, Height: 6, Hash: h}
	w.Blocks[h] = x.Latest
	return b
}

// Case is one execution.
type Case struct {
	Code, Data []byte
	Quota      uint64 // quota available to the receive (the base cost included)
	Amount     int64
	Fee        int64
	Token      types.TokenTypeId
	Store      map[string][]byte // 32 byte key -> value
	Steps      int
}

// Key32 is a storage key.
func Key32(n int64) string { return string(ref.Pad32(big.NewInt(n))) }

// Env is the reference environment of a case.
func (b *Bench) Env(cs *Case) *ref.Env { return b.env(cs, cs.Quota-BaseCost) }

func (b *Bench) env(cs *Case, q uint64) *ref.Env {
	w := b.W
	return &ref.Env{
		Code: cs.Code, Data: cs.Data, Address: b.Self.Bytes(), Caller: b.Caller.Bytes(), Token: cs.Token.Bytes(), Value: big.NewInt(cs.Amount),
		Time: w.SB().Timestamp.Unix(), Height: w.SB().Height, AccountHeight: 6, PrevHash: w.Acc[b.Self].Latest.Hash.Bytes(), FromHash: sendHash(cs).Bytes(),
		Seed: w.Seed, Random: w.Seed*31 + 5,
		Balance: func(t [10]byte) *big.Int {
			v := new(big.Int).Set(w.Bal(b.Self, types.TokenTypeId(t)))
			if types.TokenTypeId(t) == cs.Token {
				v.Add(v, big.NewInt(cs.Amount))
			}
			return v
		},
		Storage: func(k []byte) []byte { return cs.Store[string(k)] },
		Multiplier: func(to [21]byte) int {
			switch a := types.Address(to); {
			case a == b.Other:
				return 15
			case a == b.Self:
				return 10
			case types.IsBuiltinContractAddr(a):
				return -1
			case a[20] == 1:
				return 0
			default:
				return 10
			}
		},
		Quota: q, QuirkSar: b.Quirks, QuirkCallData: b.Quirks, QuirkCall2Mem: b.Quirks, MaxSteps: cs.Steps,
	}
}

func sendHash(cs *Case) (h types.Hash) {
	h[0], h[1] = 0xcd, byte(len(cs.Data))
	return h
}

// Load installs code and storage of the case.
func (b *Bench) Load(cs *Case) {
	x := b.W.Mut(b.Self)
	x.Code = append([]byte{1}, cs.Code...)
	x.Stor = map[string][]byte{}
	for k, v := range cs.Store {
		x.Stor[k] = v
	}
}

// Exec runs the case on the real VM only.
func (b *Bench) Exec(cs *Case) *Res {
	b.Load(cs)
	w := b.W
	w.Stake = Big("1000000000000000000000000000")
	w.QuotaList = []types.QuotaInfo{{QuotaTotal: maxSection - cs.Quota}}
	send := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: b.Caller, ToAddress: b.Self, TokenId: cs.Token, Amount: big.NewInt(cs.Amount), Fee: big.NewInt(cs.Fee), Data: cs.Data, Hash: sendHash(cs), Height: 1}
	w.Conf[send.Hash] = 2
	rb := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: b.Self, FromBlockHash: send.Hash}
	return w.Run(rb, send)
}

// BaseCost is what receiving costs before the first instruction.
const BaseCost = 21000

// Diff runs the case on both sides; it returns the reference outcome and a description of the first difference.
func (b *Bench) Diff(cs *Case) (*ref.Out, string) {
	o := ref.Run(b.env(cs, cs.Quota-BaseCost))
	if o.OutOfScope {
		return o, ""
	}
	r := b.Exec(cs)
	return o, b.Compare(cs, o, r)
}

// Compare checks an execution of the real VM against the reference outcome.
func (b *Bench) Compare(cs *Case, o *ref.Out, r *Res) string {
	if r.Panic != nil {
		return fmt.Sprintf("the VM panicked: %v (reference: %q)", r.Panic, o.Err)
	}
	// outgoing messages are paid from the balance after the program ended
	err := o.Err
	bal := map[types.TokenTypeId]*big.Int{Vite: new(big.Int).Set(b.W.Bal(b.Self, Vite)), b.Tok2: new(big.Int).Set(b.W.Bal(b.Self, b.Tok2))}
	get := func(t types.TokenTypeId) *big.Int {
		if bal[t] == nil {
			bal[t] = new(big.Int)
		}
		return bal[t]
	}
	get(cs.Token).Add(get(cs.Token), big.NewInt(cs.Amount))
	if err == "" {
		for _, c := range o.Calls {
			t := types.TokenTypeId(c.Token)
			if get(t).Cmp(c.Amount) < 0 {
				err = util.ErrInsufficientBalance.Error()
				break
			}
			get(t).Sub(get(t), c.Amount)
		}
	}
	got := ""
	if r.Err != nil {
		got = r.Err.Error()
	}
	if got != err {
		return fmt.Sprintf("outcome %q, expected %q", got, err)
	}
	if r.Retry || r.Block == nil {
		return fmt.Sprintf("no block (retry %v, %v)", r.Retry, r.Err)
	}
	blk := r.Block
	wantType, wantStatus, wantUsed := byte(ledger.BlockTypeReceive), byte(0), cs.Quota-o.QuotaLeft
	if err != "" {
		wantStatus = 1
	}
	if err == ref.EQuota {
		wantType, wantUsed = ledger.BlockTypeReceiveError, 0
	}
	if blk.BlockType != wantType || len(blk.Data) != 33 || blk.Data[32] != wantStatus {
		return fmt.Sprintf("block type %d data %x, expected type %d status %d", blk.BlockType, blk.Data, wantType, wantStatus)
	}
	if blk.QuotaUsed != wantUsed || blk.Quota != wantUsed {
		return fmt.Sprintf("quota used %d (stake part %d), expected %d", blk.QuotaUsed, blk.Quota, wantUsed)
	}
	// effects
	want := map[string][]byte{}
	for k, v := range cs.Store {
		want[k] = v
	}
	var logs []ref.Log
	var calls []ref.Call
	if err == "" {
		for k, v := range o.Store {
			want[k] = v
		}
		logs, calls = o.Logs, o.Calls
	}
	have := map[string][]byte{}
	for k, v := range cs.Store {
		have[k] = v
	}
	for _, kv := range r.Db.GetUnsavedStorage() {
		have[string(kv[0])] = kv[1]
	}
	if d := mapDiff(have, want); d != "" {
		return "storage " + d
	}
	ll := r.Db.GetLogList()
	if len(ll) != len(logs) {
		return fmt.Sprintf("%d logs, expected %d", len(ll), len(logs))
	}
	for i, l := range logs {
		if !bytes.Equal(ll[i].Data, l.Data) || len(ll[i].Topics) != len(l.Topics) {
			return fmt.Sprintf("log %d is %x %v, expected %x %x", i, ll[i].Data, ll[i].Topics, l.Data, l.Topics)
		}
		for j := range l.Topics {
			if !bytes.Equal(ll[i].Topics[j].Bytes(), l.Topics[j]) {
				return fmt.Sprintf("log %d topic %d is %v, expected %x", i, j, ll[i].Topics[j], l.Topics[j])
			}
		}
	}
	if (blk.LogHash == nil) != (len(logs) == 0) {
		return fmt.Sprintf("log hash %v with %d logs", blk.LogHash, len(logs))
	}
	if err != "" {
		// everything the failed call brought along goes back to the sender
		bal = map[types.TokenTypeId]*big.Int{Vite: b.W.Bal(b.Self, Vite), b.Tok2: b.W.Bal(b.Self, b.Tok2)}
		ref := map[types.TokenTypeId]int64{cs.Token: cs.Amount}
		ref[Vite] += cs.Fee
		back := map[types.TokenTypeId]*big.Int{}
		for _, s := range blk.SendBlockList {
			if s.BlockType != ledger.BlockTypeSendRefund || s.ToAddress != b.Caller || s.AccountAddress != b.Self {
				return fmt.Sprintf("a failed call sends type %d to %v", s.BlockType, s.ToAddress)
			}
			if back[s.TokenId] == nil {
				back[s.TokenId] = new(big.Int)
			}
			back[s.TokenId].Add(back[s.TokenId], s.Amount)
		}
		for t, a := range ref {
			if v := back[t]; (v == nil && a != 0) || (v != nil && v.Cmp(big.NewInt(a)) != 0) {
				return fmt.Sprintf("refund of %v is %v, expected %d", t, v, a)
			}
			delete(back, t)
		}
		if len(back) != 0 {
			return fmt.Sprintf("refund of unexpected tokens %v", back)
		}
	} else {
		if len(blk.SendBlockList) != len(calls) {
			return fmt.Sprintf("%d messages sent, expected %d", len(blk.SendBlockList), len(calls))
		}
		for i, c := range calls {
			s := blk.SendBlockList[i]
			if s.ToAddress != types.Address(c.To) || s.TokenId != types.TokenTypeId(c.Token) || s.Amount.Cmp(c.Amount) != 0 || !bytes.Equal(s.Data, c.Data) || s.AccountAddress != b.Self || s.BlockType != ledger.BlockTypeSendCall || s.QuotaUsed != 0 {
				return fmt.Sprintf("message %d is to %v %v %v data %x, expected to %x %x %v data %x", i, s.ToAddress, s.TokenId, s.Amount, s.Data, c.To, c.Token, c.Amount, c.Data)
			}
		}
	}
	ub := r.Db.GetUnsavedBalanceMap()
	for t, v := range bal {
		g := ub[t]
		if g == nil {
			g = b.W.Bal(b.Self, t)
		}
		if g.Cmp(v) != 0 {
			return fmt.Sprintf("balance of %v is %v, expected %v", t, g, v)
		}
	}
	for t, v := range ub {
		if bal[t] == nil && v.Sign() != 0 {
			return fmt.Sprintf("balance of %v became %v", t, v)
		}
	}
	return ""
}

func mapDiff(have, want map[string][]byte) string {
	var ks []string
	for k := range have {
		ks = append(ks, k)
	}
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !bytes.Equal(have[k], want[k]) {
			return fmt.Sprintf("key %x is %x, expected %x", k, have[k], want[k])
		}
	}
	return ""
}

// Asm builds programs.
type Asm struct{ B []byte }

// Op appends raw bytes.
func (a *Asm) Op(b ...byte) *Asm { a.B = append(a.B, b...); return a }

// Push pushes a value with the shortest instruction.
func (a *Asm) Push(v *big.Int) *Asm {
	d := v.Bytes()
	if len(d) == 0 {
		d = []byte{0}
	}
	a.B = append(append(a.B, byte(0x5f+len(d))), d...)
	return a
}

// I pushes a small value.
func (a *Asm) I(v int64) *Asm { return a.Push(big.NewInt(v)) }

// Addr pushes an address.
func (a *Asm) Addr(x types.Address) *Asm { return a.Push(new(big.Int).SetBytes(x.Bytes())) }

// Push2 pushes a two byte value with a fixed width.
func (a *Asm) Push2(v int) *Asm {
	var d [2]byte
	binary.BigEndian.PutUint16(d[:], uint16(v))
	a.B = append(append(a.B, 0x61), d[:]...)
	return a
}

// Observe appends code to a program so that its final stack and memory become visible as an event.
// depth and mem describe the reference state at the end of the program.
func Observe(code []byte, depth, mem int) []byte {
	if depth == 0 && mem == 0 {
		return code
	}
	a := &Asm{B: append([]byte{}, code...)}
	base := (mem + 31) / 32 * 32
	for i := 0; i < depth && i < 40; i++ {
		a.Push2(base + 32*i).Op(0x52)
	}
	n := depth
	if n > 40 {
		n = 40
	}
	a.Push2(base + 32*n).I(0).Op(0xa0)
	return a.B
}
