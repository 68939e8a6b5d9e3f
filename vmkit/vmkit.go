// Package vmkit runs the real VM, the real VM database overlay and the real built-in contracts on an in-memory
// ledger that can be cloned in microseconds, so that whole trees of operation sequences can be explored.
package vmkit

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
)

func init() { log15.Root().SetHandler(log15.DiscardHandler()) }

// Vite is the native token.
var Vite = ledger.ViteTokenId

// Big parses a decimal.
func Big(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return b
}

// V is n VITE.
func V(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), big.NewInt(1e18)) }

// User returns a deterministic user address.
func User(n byte) types.Address {
	return types.PubkeyToAddress(bytes.Repeat([]byte{n}, 32))
}

// ContractAddr returns a deterministic contract address.
func ContractAddr(n byte) types.Address {
	return types.CreateContractAddress([]byte{n}, []byte("contract"))
}

// Acct is the state of one account. Treat as immutable; Clone copies on write.
type Acct struct {
	Bal    map[types.TokenTypeId]*big.Int
	Stor   map[string][]byte
	Code   []byte
	Latest *ledger.AccountBlock
	Uncon  []*ledger.AccountBlock
	own    bool
}

// World is the in-memory ledger.
type World struct {
	Acc    map[types.Address]*Acct
	Meta   map[types.Address]*ledger.ContractMeta
	MetaAt map[types.Address]uint64 // snapshot height from which the contract counts as existing
	Blocks map[types.Hash]*ledger.AccountBlock
	Conf   map[types.Hash]uint64 // confirming snapshot height
	SBs    []*ledger.SnapshotBlock
	// OnRoad holds the sends not received yet, oldest first.
	OnRoad []*ledger.AccountBlock
	Depth  map[types.Hash]uint16
	Logs   map[types.Hash]ledger.VmLogList

	// Stake overrides the stake of every address when not nil.
	Stake *big.Int
	// QuotaList overrides the recent quota usage of every address when not nil.
	QuotaList []types.QuotaInfo
	Global    types.QuotaInfo
	Seed      uint64
	Reader    util.ConsensusReader
	// OnResp, when set, is told about every committed response and its event hash.
	OnResp func(types.Address, *types.Hash)
	// Twice executes every response twice and reports a difference as a panic.
	Twice bool
	// NoUncon hides unconfirmed blocks from the quota computation.
	NoUncon bool
}

// New returns an empty ledger with one snapshot block.
func New() *World {
	w := &World{
		Acc: map[types.Address]*Acct{}, Meta: map[types.Address]*ledger.ContractMeta{}, MetaAt: map[types.Address]uint64{},
		Blocks: map[types.Hash]*ledger.AccountBlock{}, Conf: map[types.Hash]uint64{}, Depth: map[types.Hash]uint16{},
		Logs: map[types.Hash]ledger.VmLogList{},
		Seed: 7,
	}
	w.Stake = Big("1000000000000000000000000000")
	w.QuotaList = make([]types.QuotaInfo, 75)
	w.addSB(time.Unix(1558411200, 0))
	return w
}

var inited bool

// Init sets the process-wide configuration once: every upgrade active from height 1 and the test parameters.
func Init(g *config.Genesis) {
	if inited {
		return
	}
	inited = true
	if g == nil {
		g = config.MockGenesis()
	}
	upgrade.CleanupUpgradeBox()
	upgrade.InitUpgradeBox(g.UpgradeCfg.MakeUpgradeBox())
	vm.InitVMConfig(false, true, true, false, "")
}

// FromGenesis loads the state the genesis configuration defines.
func FromGenesis(g *config.Genesis) *World {
	Init(g)
	w := New()
	for _, vb := range chain_genesis.NewGenesisAccountBlocks(g) {
		b := vb.AccountBlock
		if b.Hash.IsZero() {
			b.Hash = b.ComputeHash()
		}
		w.commit(b, vb.VmDb)
		w.Conf[b.Hash] = 1
	}
	for _, a := range w.Acc {
		a.Uncon = nil
	}
	for a := range w.Meta {
		w.MetaAt[a] = 1
	}
	return w
}

// Clone returns an independent copy.
func (w *World) Clone() *World {
	n := *w
	n.Acc = make(map[types.Address]*Acct, len(w.Acc))
	for k, v := range w.Acc {
		v.own = false
		n.Acc[k] = v
	}
	n.Meta = make(map[types.Address]*ledger.ContractMeta, len(w.Meta))
	for k, v := range w.Meta {
		n.Meta[k] = v
	}
	n.MetaAt = make(map[types.Address]uint64, len(w.MetaAt))
	for k, v := range w.MetaAt {
		n.MetaAt[k] = v
	}
	n.Blocks = make(map[types.Hash]*ledger.AccountBlock, len(w.Blocks))
	for k, v := range w.Blocks {
		n.Blocks[k] = v
	}
	n.Conf = make(map[types.Hash]uint64, len(w.Conf))
	for k, v := range w.Conf {
		n.Conf[k] = v
	}
	n.Depth = make(map[types.Hash]uint16, len(w.Depth))
	for k, v := range w.Depth {
		n.Depth[k] = v
	}
	n.Logs = make(map[types.Hash]ledger.VmLogList, len(w.Logs))
	for k, v := range w.Logs {
		n.Logs[k] = v
	}
	n.SBs = append([]*ledger.SnapshotBlock{}, w.SBs...)
	n.OnRoad = append([]*ledger.AccountBlock{}, w.OnRoad...)
	return &n
}

// Get returns the account for reading (may be nil).
func (w *World) Get(a types.Address) *Acct { return w.Acc[a] }

// Mut returns the account for writing.
func (w *World) Mut(a types.Address) *Acct {
	x := w.Acc[a]
	if x == nil {
		x = &Acct{Bal: map[types.TokenTypeId]*big.Int{}, Stor: map[string][]byte{}, own: true}
		w.Acc[a] = x
		return x
	}
	if !x.own {
		y := &Acct{Bal: make(map[types.TokenTypeId]*big.Int, len(x.Bal)), Stor: make(map[string][]byte, len(x.Stor)+4), Code: x.Code, Latest: x.Latest, Uncon: append([]*ledger.AccountBlock{}, x.Uncon...), own: true}
		for k, v := range x.Bal {
			y.Bal[k] = v
		}
		for k, v := range x.Stor {
			y.Stor[k] = v
		}
		w.Acc[a] = y
		return y
	}
	return x
}

// SetBal sets a balance directly.
func (w *World) SetBal(a types.Address, t types.TokenTypeId, v *big.Int) {
	w.Mut(a).Bal[t] = new(big.Int).Set(v)
}

// Bal reads a balance.
func (w *World) Bal(a types.Address, t types.TokenTypeId) *big.Int {
	if x := w.Acc[a]; x != nil {
		if b := x.Bal[t]; b != nil {
			return b
		}
	}
	return new(big.Int)
}

// SB is the latest snapshot block.
func (w *World) SB() *ledger.SnapshotBlock { return w.SBs[len(w.SBs)-1] }

func (w *World) addSB(t time.Time) {
	sb := &ledger.SnapshotBlock{Height: uint64(len(w.SBs) + 1), Timestamp: &t}
	var h types.Hash
	h[0], h[1], h[2], h[3], h[31] = 0x5b, byte(len(w.SBs)>>16), byte(len(w.SBs)>>8), byte(len(w.SBs)), 1
	ut := uint64(t.Unix())
	for i := 0; i < 8; i++ {
		h[8+i] = byte(ut >> (8 * i))
	}
	sb.Hash = h
	if len(w.SBs) > 0 {
		sb.PrevHash = w.SB().Hash
	}
	w.SBs = append(w.SBs, sb)
}

// Snapshot adds n snapshot blocks, one second apart, confirming everything unconfirmed.
func (w *World) Snapshot(n int) { w.SnapshotAt(n, time.Second) }

// SnapshotAt adds n snapshot blocks with the given gap.
func (w *World) SnapshotAt(n int, gap time.Duration) {
	for i := 0; i < n; i++ {
		w.addSB(w.SB().Timestamp.Add(gap))
		if i == 0 {
			for a, x := range w.Acc {
				if len(x.Uncon) > 0 {
					m := w.Mut(a)
					for _, b := range m.Uncon {
						w.Conf[b.Hash] = w.SB().Height
						for _, s := range b.SendBlockList {
							w.Conf[s.Hash] = w.SB().Height
						}
					}
					m.Uncon = nil
				}
			}
			for a := range w.Meta {
				if w.MetaAt[a] == 0 {
					w.MetaAt[a] = w.SB().Height
				}
			}
		}
	}
}

// SetCode installs contract code (without type byte) and meta.
func (w *World) SetCode(a types.Address, code []byte) {
	w.Mut(a).Code = append([]byte{1}, code...)
	if w.Meta[a] == nil {
		w.Meta[a] = &ledger.ContractMeta{Gid: types.DELEGATE_GID, SendConfirmedTimes: 0, SeedConfirmedTimes: 0, QuotaRatio: 10}
		w.MetaAt[a] = 1
	}
}

// ---- vm_db.Chain ----

func (w *World) GetQuotaUsedList(types.Address) []types.QuotaInfo { return w.QuotaList }
func (w *World) GetGlobalQuota() types.QuotaInfo                  { return w.Global }
func (w *World) GetBalance(a types.Address, t types.TokenTypeId) (*big.Int, error) {
	return new(big.Int).Set(w.Bal(a, t)), nil
}
func (w *World) GetContractCode(a types.Address) ([]byte, error) {
	if x := w.Acc[a]; x != nil {
		return x.Code, nil
	}
	return nil, nil
}
func (w *World) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	if types.IsBuiltinContractAddr(a) {
		return ledger.GetBuiltinContractMeta(a), nil
	}
	return w.Meta[a], nil
}
func (w *World) GetConfirmSnapshotHeaderByAbHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	if c := w.Conf[h]; c > 0 {
		return w.SBs[c-1], nil
	}
	return nil, nil
}
func (w *World) GetConfirmedTimes(h types.Hash) (uint64, error) {
	if c := w.Conf[h]; c > 0 {
		return w.SB().Height + 1 - c, nil
	}
	return 0, nil
}
func (w *World) GetContractMetaInSnapshot(a types.Address, height uint64) (*ledger.ContractMeta, error) {
	if types.IsBuiltinContractAddr(a) {
		return ledger.GetBuiltinContractMeta(a), nil
	}
	if m := w.Meta[a]; m != nil && w.MetaAt[a] > 0 && w.MetaAt[a] <= height {
		return m, nil
	}
	return nil, nil
}
func (w *World) GetSnapshotHeaderByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	for i := len(w.SBs) - 1; i >= 0; i-- {
		if w.SBs[i].Hash == h {
			return w.SBs[i], nil
		}
	}
	return nil, nil
}
func (w *World) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h == 0 || h > uint64(len(w.SBs)) {
		return nil, nil
	}
	return w.SBs[h-1], nil
}
func (w *World) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	return w.Blocks[h], nil
}
func (w *World) GetLatestAccountBlock(a types.Address) (*ledger.AccountBlock, error) {
	if x := w.Acc[a]; x != nil {
		return x.Latest, nil
	}
	return nil, nil
}
func (w *World) GetVmLogList(h *types.Hash) (ledger.VmLogList, error) {
	if h == nil {
		return nil, nil
	}
	return w.Logs[*h], nil
}
func (w *World) GetUnconfirmedBlocks(a types.Address) []*ledger.AccountBlock {
	if x := w.Acc[a]; x != nil && !w.NoUncon {
		return x.Uncon
	}
	return nil
}
func (w *World) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return w.SBs[0] }

type storDB struct {
	w *World
	a types.Address
}

func (s storDB) GetValue(k []byte) ([]byte, error) { return s.w.GetValue(s.a, k) }
func (s storDB) NewStorageIterator(p []byte) (interfaces.StorageIterator, error) {
	return s.w.GetStorageIterator(s.a, p)
}
func (s storDB) Address() *types.Address { a := s.a; return &a }

// DB is a read-only view of a contract's storage for the query functions of the abi package.
func (w *World) DB(a types.Address) abi.StorageDatabase { return storDB{w, a} }

func (w *World) GetStakeBeneficialAmount(a types.Address) (*big.Int, error) {
	if w.Stake != nil {
		return w.Stake, nil
	}
	return abi.GetStakeBeneficialAmount(storDB{w, types.AddressQuota}, a)
}
func (w *World) GetValue(a types.Address, k []byte) ([]byte, error) {
	if x := w.Acc[a]; x != nil {
		return x.Stor[string(k)], nil
	}
	return nil, nil
}
func (w *World) GetCallDepth(h types.Hash) (uint16, error) { return w.Depth[h], nil }
func (w *World) GetSnapshotBlockByContractMeta(types.Address, types.Hash) (*ledger.SnapshotBlock, error) {
	return w.SB(), nil
}
func (w *World) GetSeedConfirmedSnapshotBlock(types.Address, types.Hash) (*ledger.SnapshotBlock, error) {
	return w.SB(), nil
}
func (w *World) GetSeed(*ledger.SnapshotBlock, types.Hash) (uint64, error) { return w.Seed, nil }

type iter struct {
	keys []string
	m    map[string][]byte
	i    int
}

func (w *World) GetStorageIterator(a types.Address, p []byte) (interfaces.StorageIterator, error) {
	it := &iter{i: -1}
	if x := w.Acc[a]; x != nil {
		it.m = x.Stor
		for k := range x.Stor {
			if bytes.HasPrefix([]byte(k), p) {
				it.keys = append(it.keys, k)
			}
		}
		sort.Strings(it.keys)
	}
	return it, nil
}
func (it *iter) Last() bool { it.i = len(it.keys) - 1; return it.i >= 0 }
func (it *iter) Prev() bool {
	if it.i >= 0 {
		it.i--
	}
	return it.i >= 0
}
func (it *iter) Next() bool {
	if it.i < len(it.keys) {
		it.i++
	}
	return it.i < len(it.keys)
}
func (it *iter) Seek(k []byte) bool {
	it.i = sort.SearchStrings(it.keys, string(k))
	return it.i < len(it.keys)
}
func (it *iter) Key() []byte {
	if it.i < 0 || it.i >= len(it.keys) {
		return nil
	}
	return []byte(it.keys[it.i])
}
func (it *iter) Value() []byte {
	if it.i < 0 || it.i >= len(it.keys) {
		return nil
	}
	return it.m[it.keys[it.i]]
}
func (it *iter) Error() error { return nil }
func (it *iter) Release()     {}

// ---- execution ----

type status struct{ w *World }

func (s *status) Seed() (uint64, error)                { return s.w.Seed, nil }
func (s *status) Random() (uint64, error)              { return s.w.Seed*31 + 5, nil }
func (s *status) SnapshotBlock() *ledger.SnapshotBlock { return s.w.SB() }

// Res is the outcome of one execution.
type Res struct {
	Block *ledger.AccountBlock
	Db    interfaces.VmDb
	Err   error
	Retry bool
	Panic interface{}
}

// OK tells whether a receive executed successfully (its block exists and carries the success flag).
func (r *Res) OK() bool { return r.Block != nil && r.Err == nil && r.Panic == nil }

// NewDb opens a VM database on the account's current state.
func (w *World) NewDb(a types.Address) interfaces.VmDb {
	var prev types.Hash
	if x := w.Acc[a]; x != nil && x.Latest != nil {
		prev = x.Latest.Hash
	}
	sb := w.SB().Hash
	addr := a
	db, err := vm_db.NewVmDb(w, &addr, &sb, &prev)
	if err != nil {
		panic(err)
	}
	return db
}

// Run executes a block with the real VM without committing it.
func (w *World) Run(b, send *ledger.AccountBlock) (r *Res) {
	if w.Twice && b.IsReceiveBlock() {
		c := *b
		r2 := w.run(&c, send)
		r = w.run(b, send)
		if r.Panic == nil && (r2.Panic != nil || (r.Block == nil) != (r2.Block == nil) || r.Retry != r2.Retry || r.Block != nil && (r.Block.Hash != r2.Block.Hash || unsaved(r) != unsaved(r2))) {
			r.Block, r.Panic = nil, "two executions of the same request differ"
		}
		return r
	}
	return w.run(b, send)
}

func unsaved(r *Res) string {
	l := r.Db.GetUnsavedStorage()
	s := make([]string, 0, len(l))
	for _, kv := range l {
		s = append(s, fmt.Sprintf("%x=%x", kv[0], kv[1]))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func (w *World) run(b, send *ledger.AccountBlock) (r *Res) {
	db := w.NewDb(b.AccountAddress)
	if x := w.Acc[b.AccountAddress]; x != nil && x.Latest != nil {
		b.PrevHash, b.Height = x.Latest.Hash, x.Latest.Height+1
	} else {
		b.PrevHash, b.Height = types.Hash{}, 1
	}
	r = &Res{}
	defer func() {
		if e := recover(); e != nil {
			r.Block, r.Panic = nil, e
		}
	}()
	var st util.GlobalStatus
	if b.IsReceiveBlock() {
		st = &status{w}
	}
	machine := vm.NewVM(w.Reader)
	vb, retry, err := machine.RunV2(db, b, send, st)
	r.Retry, r.Err = retry, err
	if vb != nil {
		r.Block, r.Db = vb.AccountBlock, vb.VmDb
		if r.Block.IsReceiveBlock() {
			for i, s := range r.Block.SendBlockList {
				s.Hash = s.ComputeSendHash(r.Block, uint8(i))
			}
		}
		r.Block.Hash = r.Block.ComputeHash()
	}
	return r
}

func (w *World) commit(b *ledger.AccountBlock, db interfaces.VmDb) {
	x := w.Mut(b.AccountAddress)
	for t, v := range db.GetUnsavedBalanceMap() {
		x.Bal[t] = new(big.Int).Set(v)
	}
	for _, kv := range db.GetUnsavedStorage() {
		if len(kv[1]) == 0 {
			delete(x.Stor, string(kv[0]))
		} else {
			x.Stor[string(kv[0])] = append([]byte{}, kv[1]...)
		}
	}
	if c := db.GetUnsavedContractCode(); len(c) > 0 {
		x.Code = append([]byte{}, c...)
	}
	for a, m := range db.GetUnsavedContractMeta() {
		w.Meta[a] = m
	}
	if b.LogHash != nil {
		w.Logs[*b.LogHash] = db.GetLogList()
	}
	if w.OnResp != nil && b.IsReceiveBlock() {
		w.OnResp(b.AccountAddress, b.LogHash)
	}
	w.Blocks[b.Hash] = b
	x.Latest = b
	x.Uncon = append(x.Uncon, b)
	if b.IsSendBlock() {
		w.OnRoad = append(w.OnRoad, b)
	} else {
		for i, s := range w.OnRoad {
			if s.Hash == b.FromBlockHash {
				w.OnRoad = append(append([]*ledger.AccountBlock{}, w.OnRoad[:i]...), w.OnRoad[i+1:]...)
				break
			}
		}
		for _, s := range b.SendBlockList {
			w.Blocks[s.Hash] = s
			w.Depth[s.Hash] = w.Depth[b.FromBlockHash] + 1
			w.OnRoad = append(w.OnRoad, s)
		}
	}
}

// Commit inserts an executed block.
func (w *World) Commit(r *Res) { w.commit(r.Block, r.Db) }

// Send executes and commits a user's request block.
func (w *World) Send(from, to types.Address, tok types.TokenTypeId, amount *big.Int, data []byte) *Res {
	return w.send(ledger.BlockTypeSendCall, from, to, tok, amount, data)
}

// Create executes and commits a contract creation request.
func (w *World) Create(from types.Address, amount *big.Int, data []byte) *Res {
	return w.send(ledger.BlockTypeSendCreate, from, types.Address{}, Vite, amount, data)
}

func (w *World) send(bt byte, from, to types.Address, tok types.TokenTypeId, amount *big.Int, data []byte) *Res {
	b := &ledger.AccountBlock{BlockType: bt, AccountAddress: from, ToAddress: to, TokenId: tok, Amount: new(big.Int).Set(amount), Fee: big.NewInt(0), Data: data}
	r := w.Run(b, nil)
	if r.Block != nil && r.Err == nil && r.Panic == nil {
		w.Commit(r)
	}
	return r
}

// Receive executes and commits the receive of a send block.
func (w *World) Receive(send *ledger.AccountBlock) *Res {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: send.ToAddress, FromBlockHash: send.Hash}
	r := w.Run(b, send)
	if r.Block != nil && r.Panic == nil && !r.Retry {
		w.Commit(r)
	}
	return r
}

// Settle receives everything addressed to contracts (and users if users is set) until nothing changes.
func (w *World) Settle(users bool, max int) ([]*Res, error) {
	var out []*Res
	for i := 0; i < max; i++ {
		var next *ledger.AccountBlock
		for _, s := range w.OnRoad {
			if users || types.IsContractAddr(s.ToAddress) {
				next = s
				break
			}
		}
		if next == nil {
			return out, nil
		}
		r := w.Receive(next)
		out = append(out, r)
		if r.Panic != nil {
			return out, fmt.Errorf("panic while receiving: %v", r.Panic)
		}
		if r.Block == nil {
			return out, fmt.Errorf("receive gave no block: %v retry=%v", r.Err, r.Retry)
		}
	}
	return out, errors.New("the on-road set did not drain")
}

// Total sums a token over all balances and everything on the road, fees in flight included.
func (w *World) Total(t types.TokenTypeId) *big.Int {
	s := new(big.Int)
	for _, x := range w.Acc {
		if b := x.Bal[t]; b != nil {
			s.Add(s, b)
		}
	}
	for _, b := range w.OnRoad {
		if b.TokenId == t && b.Amount != nil {
			s.Add(s, b.Amount)
		}
	}
	return s
}

// StorageOf returns a sorted dump of an account's storage.
func (w *World) StorageOf(a types.Address) []string {
	var out []string
	if x := w.Acc[a]; x != nil {
		for k, v := range x.Stor {
			out = append(out, fmt.Sprintf("%x=%x", k, v))
		}
	}
	sort.Strings(out)
	return out
}
