// Property L13: the contract on-road pool. Sends by users and contracts, receives in order, rollbacks and
// restarts are enumerated; what the pool offers to a contract is compared with the pending sends of the history.
package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	onroad_pool "github.com/vitelabs/go-vite/v2/ledger/onroad/pool"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

func address(contract bool, n byte) (a types.Address) {
	a[0] = n
	if contract {
		a[types.AddressSize-1] = 1
	}
	return
}

var (
	users     = []types.Address{address(false, 1), address(false, 2)}
	contracts = []types.Address{address(true, 3), address(true, 2)}
	names     = map[types.Address]string{users[0]: "U", users[1]: "V", contracts[0]: "X", contracts[1]: "Y"}
)

// world is the ledger the pool reads, and the model.
type world struct {
	c      *C
	p      onroad_pool.OnRoadPool
	blocks []*ledger.AccountBlock              // history of account blocks
	byHash map[types.Hash]*ledger.AccountBlock // sends and receives
	parent map[types.Hash]*ledger.AccountBlock // embedded send -> receive
	got    map[types.Hash]*ledger.AccountBlock // send -> receive
	height map[types.Address]uint64
	n      int
	sends  []*ledger.AccountBlock // every send ever made
}

func (w *world) IsGenesisAccountBlock(types.Hash) bool { return false }
func (w *world) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	return w.byHash[h], nil
}
func (w *world) GetCompleteBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	if p := w.parent[h]; p != nil {
		return p, nil
	}
	return w.byHash[h], nil
}
func (w *world) LoadOnRoadRange(gid types.Gid, fn interfaces.LoadOnroadFn) error {
	for _, to := range contracts {
		l := w.pending(to)
		sort.Slice(l, func(i, j int) bool { return string(l[i].Hash[:]) < string(l[j].Hash[:]) })
		for _, s := range l {
			if err := fn(s.AccountAddress, to, ledger.HashHeight{Height: w.at(s), Hash: s.Hash}); err != nil {
				return err
			}
		}
	}
	return nil
}

// at is the height that orders a send: its own, or its receive block's when a contract made it.
func (w *world) at(s *ledger.AccountBlock) uint64 {
	if p := w.parent[s.Hash]; p != nil {
		return p.Height
	}
	return s.Height
}

func (w *world) idx(s *ledger.AccountBlock) int {
	if p := w.parent[s.Hash]; p != nil {
		for i, x := range p.SendBlockList {
			if x == s {
				return i
			}
		}
	}
	return 0
}

// pending: the sends to an address that exist and are not received, in the order of each sender.
func (w *world) pending(to types.Address) (l []*ledger.AccountBlock) {
	for _, s := range w.sends {
		if w.byHash[s.Hash] == s && s.ToAddress == to && w.got[s.Hash] == nil {
			l = append(l, s)
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		if w.at(l[i]) != w.at(l[j]) {
			return w.at(l[i]) < w.at(l[j])
		}
		return w.idx(l[i]) < w.idx(l[j])
	})
	return
}

func (w *world) front(to types.Address) (l []*ledger.AccountBlock) {
	seen := map[types.Address]bool{}
	for _, s := range w.pending(to) {
		if !seen[s.AccountAddress] {
			seen[s.AccountAddress] = true
			l = append(l, s)
		}
	}
	sort.Slice(l, func(i, j int) bool { return names[l[i].AccountAddress] < names[l[j].AccountAddress] })
	return
}

func (w *world) hash() (h types.Hash) {
	w.n++
	// hashes are not in the order of the blocks
	h[0] = types.DataHash([]byte{byte(w.n)})[0]
	h[31] = byte(w.n)
	return
}

func (w *world) start() {
	db, err := leveldb.Open(storage.NewMemStorage(), &opt.Options{WriteBuffer: 1 << 16})
	if err != nil {
		panic(err)
	}
	w.c.Defer(func() { db.Close() })
	w.p = onroad_pool.NewContractOnRoadPool(types.DELEGATE_GID, w, db)
}

// tell passes the blocks on to the pool the way the on-road manager does.
func (w *world) tell(f func(types.Address, []*ledger.AccountBlock) error, blocks []*ledger.AccountBlock) {
	for addr, list := range onroad.ExcludePairTrades(w, blocks) {
		if !types.IsContractAddr(addr) {
			continue
		}
		if err := f(addr, list); err != nil {
			w.c.Fail("L13/error", "%v", err)
		}
	}
}

func (w *world) add(b *ledger.AccountBlock) {
	w.height[b.AccountAddress]++
	b.Height = w.height[b.AccountAddress]
	b.Hash = w.hash()
	w.byHash[b.Hash] = b
	w.blocks = append(w.blocks, b)
	if b.IsSendBlock() {
		w.sends = append(w.sends, b)
	} else {
		w.got[b.FromBlockHash] = b
	}
	for _, s := range b.SendBlockList {
		s.Hash = w.hash()
		s.AccountAddress = b.AccountAddress
		w.byHash[s.Hash] = s
		w.parent[s.Hash] = b
		w.sends = append(w.sends, s)
	}
}

// drop removes the newest n blocks from the ledger after the pool was told.
func (w *world) drop(n int) {
	l := append([]*ledger.AccountBlock(nil), w.blocks[len(w.blocks)-n:]...)
	w.tell(w.p.DeleteAccountBlocks, l)
	for _, b := range l {
		delete(w.byHash, b.Hash)
		w.height[b.AccountAddress]--
		if !b.IsSendBlock() {
			delete(w.got, b.FromBlockHash)
		}
		for _, s := range b.SendBlockList {
			delete(w.byHash, s.Hash)
			delete(w.parent, s.Hash)
		}
	}
	w.blocks = w.blocks[:len(w.blocks)-n]
}

func (w *world) check() {
	for _, to := range contracts {
		want := w.front(to)
		have, err := w.p.GetFrontOnRoadBlocksByAddr(to)
		if err != nil {
			w.c.Fail("L13/front-error", "the front blocks of %s: %v", names[to], err)
		}
		sort.Slice(have, func(i, j int) bool { return names[have[i].AccountAddress] < names[have[j].AccountAddress] })
		ok := len(have) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = have[i] == want[i]
		}
		if !ok {
			d := func(l []*ledger.AccountBlock) (s string) {
				for _, b := range l {
					s += fmt.Sprintf(" %s:%d/%d", names[b.AccountAddress], w.at(b), w.idx(b))
				}
				return
			}
			w.c.Fail("L13/front", "contract %s is offered%s instead of%s", names[to], d(have), d(want))
		}
		front := map[types.Hash]bool{}
		for _, s := range want {
			front[s.Hash] = true
		}
		for _, s := range w.sends {
			if s.ToAddress != to {
				continue
			}
			is, err := w.p.IsFrontOnRoadOfCaller(to, s.AccountAddress, s.Hash)
			if is != front[s.Hash] || (is && err != nil) {
				w.c.Fail("L13/is-front", "send %d/%d of %s to %s: front=%v (%v), should be %v", w.at(s), w.idx(s), names[s.AccountAddress], names[to], is, err, front[s.Hash])
			}
		}
		w.p.Info()
	}
	w.c.State()
}

func (w *world) ops() (l []func()) {
	c := w.c
	for _, u := range users {
		for _, to := range contracts {
			u, to := u, to
			l = append(l, func() {
				c.Op("%s sends to %s", names[u], names[to])
				b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: u, ToAddress: to}
				w.add(b)
				w.tell(w.p.InsertAccountBlocks, []*ledger.AccountBlock{b})
			})
		}
		if w.height[u] == 0 {
			break // the users are interchangeable until both sent something
		}
	}
	for i, to := range contracts {
		self, other := to, contracts[1-i]
		for _, s := range w.front(to) {
			for _, out := range [][]types.Address{nil, {other}, {other, self, other}, {users[0], other}} {
				s, out := s, out
				l = append(l, func() {
					c.Op("%s receives %s's and sends %d", names[self], names[s.AccountAddress], len(out))
					b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: self, FromBlockHash: s.Hash}
					for _, a := range out {
						b.SendBlockList = append(b.SendBlockList, &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, ToAddress: a})
					}
					w.add(b)
					w.tell(w.p.InsertAccountBlocks, []*ledger.AccountBlock{b})
				})
			}
		}
	}
	for n := 1; n <= 3 && n <= len(w.blocks); n++ {
		n := n
		l = append(l, func() {
			c.Op("the last %d blocks are removed", n)
			w.drop(n)
		})
	}
	l = append(l, func() {
		c.Op("restart")
		w.start()
	})
	return
}

func body(depth int, pre func(w *world)) func(c *C) {
	return func(c *C) {
		w := &world{c: c, byHash: map[types.Hash]*ledger.AccountBlock{}, parent: map[types.Hash]*ledger.AccountBlock{}, got: map[types.Hash]*ledger.AccountBlock{}, height: map[types.Address]uint64{}}
		w.start()
		if pre != nil {
			pre(w)
		}
		w.check()
		for i := 0; i < depth; i++ {
			l := w.ops()
			l[c.Choose(len(l))]()
			w.check()
		}
	}
}

func main() {
	Silence()
	Main(Suite{Property: "L13", QuickBudget: 150 * time.Second, ThoroughBudget: 30 * time.Minute, Scenarios: func(tier string) []Scenario {
		d, e := 5, 3
		if tier == "thorough" {
			d, e = 6, 4
		}
		busy := func(w *world) {
			send := func(u, to types.Address) {
				b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: u, ToAddress: to}
				w.add(b)
				w.tell(w.p.InsertAccountBlocks, []*ledger.AccountBlock{b})
			}
			send(users[0], contracts[0])
			send(users[0], contracts[1])
			send(users[0], contracts[0])
			send(users[1], contracts[0])
			b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: contracts[0], FromBlockHash: w.blocks[0].Hash}
			for i := 0; i < 11; i++ {
				b.SendBlockList = append(b.SendBlockList, &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, ToAddress: contracts[1]})
			}
			w.add(b)
			w.tell(w.p.InsertAccountBlocks, []*ledger.AccountBlock{b})
		}
		return []Scenario{
			{Name: "fresh", Bound: fmt.Sprintf("every sequence of %d sends, receives, removals and restarts over 2 users and 2 contracts", d), Body: body(d, nil)},
			{Name: "busy", Bound: fmt.Sprintf("every sequence of %d operations after a history with several pending sends of one contract receive", e), Body: body(e, busy)},
		}
	}})
}
