// Property P03: the pool. A real ledger with its verifier and a running pool is given the blocks of a tree of
// competing chains in every order (announced, fetched, as downloaded chunks); whatever the order, it must end with
// the longest valid chain, and nothing of the others, in the ledger.
package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

// step is what one snapshot block adds to a chain: account blocks, then the snapshot block.
type step struct {
	name string
	abs  []*ledger.AccountBlock
	sb   *ledger.SnapshotBlock
}

// universe is every block there is, the same in every process.
type universe struct {
	prefix []step
	a, b   []step
	bad    []step // competes like b; one of its account blocks is not valid
	free   []*ledger.AccountBlock
	byHash map[types.Hash]*ledger.AccountBlock
	sbHash map[types.Hash]*ledger.SnapshotBlock
	state  map[types.Hash]string // what a ledger that followed only this chain says, by its last snapshot block
	names  map[types.Hash]string
	e      []step                  // leaves b after b4, longer still
	own    [2]*ledger.AccountBlock // what the node makes itself on the prefix
	ownSb  *ledger.SnapshotBlock
	final  []step // a chain with an irreversible block
	rivals [][]step
}

var (
	once sync.Once
	u    *universe
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func world() *kit.World {
	w, err := kit.Open(kit.Options{Dir: kit.MkTemp("p03-")})
	must(err)
	return w
}

func amt(n int64) *big.Int { return big.NewInt(n) }

func (x *universe) replay(w *kit.World, l []step) {
	for _, s := range l {
		for _, b := range s.abs {
			_, err := w.Submit(b)
			must(err)
		}
		if s.sb != nil {
			_, err := w.InsertSnapshot(s.sb)
			must(err)
		}
	}
}

// stateOf is what the ledger says about its confirmed history.
func stateOf(w *kit.World) string {
	var sb strings.Builder
	head := w.Chain.GetLatestSnapshotBlock()
	for h := uint64(1); h <= head.Height; h++ {
		b, err := w.Chain.GetSnapshotBlockByHeight(h)
		fmt.Fprintf(&sb, "sb %d %s %v\n", h, kit.SbText(b), err)
	}
	for i, a := range kit.Users {
		last := uint64(0)
		for h := uint64(1); h < 20; h++ {
			b, err := w.Chain.GetAccountBlockByHeight(a.Addr, h)
			if b == nil || err != nil {
				break
			}
			c, err := w.Chain.GetConfirmSnapshotHeaderByAbHash(b.Hash)
			if c == nil {
				break
			}
			last = h
			fmt.Fprintf(&sb, "u%d %d %s confirmed %d %v\n", i, h, b.Hash, c.Height, err)
		}
		fmt.Fprintf(&sb, "u%d confirmed to %d\n", i, last)
		m, err := w.Chain.GetConfirmedBalanceList([]types.Address{a.Addr}, ledger.ViteTokenId, head.Hash)
		fmt.Fprintf(&sb, "u%d balance %v %v\n", i, m[a.Addr], err)
	}
	return sb.String()
}

func build() {
	once.Do(func() {
		u = &universe{byHash: map[types.Hash]*ledger.AccountBlock{}, sbHash: map[types.Hash]*ledger.SnapshotBlock{},
			state: map[types.Hash]string{}, names: map[types.Hash]string{}}
		U := kit.Users
		send := func(w *kit.World, i, j int, n int64) *ledger.AccountBlock {
			b, err := w.Send(U[i], U[j].Addr, ledger.ViteTokenId, amt(n), nil)
			must(err)
			return b
		}
		recv := func(w *kit.World, i int, s *ledger.AccountBlock) *ledger.AccountBlock {
			b, err := w.Receive(s, U[i])
			must(err)
			return b
		}
		cut := func(w *kit.World, l *[]step, name string, sign *kit.Acct, abs ...*ledger.AccountBlock) {
			n := w.NextSnapshot(nil, 0)
			if sign != nil {
				n.Signature, n.PublicKey, _ = sign.Sign(n.Hash.Bytes())
			}
			sb, err := w.InsertSnapshot(n)
			must(err)
			*l = append(*l, step{name, abs, sb})
			u.sbHash[sb.Hash] = sb
			u.names[sb.Hash] = name
			for k, b := range abs {
				u.byHash[b.Hash] = b
				u.names[b.Hash] = fmt.Sprintf("%s.%d", name, k)
			}
			u.state[sb.Hash] = stateOf(w)
		}
		w := world()
		s1 := send(w, 0, 1, 10)
		cut(w, &u.prefix, "c2", nil, s1)
		// a: the receipt of s1 and a payment that b spends otherwise
		ra := recv(w, 1, s1)
		s2a := send(w, 0, 1, 20)
		cut(w, &u.a, "a3", nil, ra, s2a)
		w.Remove()

		// b: three more blocks, each building on the account blocks of the one before
		w = world()
		u.replay(w, u.prefix)
		w.SnapGap = 2 * time.Second
		s2b := send(w, 0, 2, 30)
		cut(w, &u.b, "b3", nil, s2b)
		w.SnapGap = time.Second
		rb := recv(w, 2, s2b)
		t1 := send(w, 1, 0, 40)
		cut(w, &u.b, "b4", nil, rb, t1)
		rt := recv(w, 0, t1)
		rs := recv(w, 1, s1)
		cut(w, &u.b, "b5", nil, rt, rs)
		cut(w, &u.b, "b6", nil)
		x1 := send(w, 2, 3, 50)
		x2 := recv(w, 3, x1)
		cut(w, &u.b, "b7", nil, x1, x2)
		w.Remove()

		// e: leaves b after b4
		w = world()
		u.replay(w, u.prefix)
		u.replay(w, u.b[:2])
		w.SnapGap = 3 * time.Second
		e1 := send(w, 1, 3, 60)
		cut(w, &u.e, "e5", nil, e1)
		w.SnapGap = time.Second
		e2 := recv(w, 3, e1)
		cut(w, &u.e, "e6", nil, e2)
		e3 := recv(w, 1, s1)
		e4 := send(w, 3, 2, 70)
		cut(w, &u.e, "e7", nil, e3, e4)
		cut(w, &u.e, "e8", nil)
		e5 := recv(w, 2, e4)
		cut(w, &u.e, "e9", nil, e5)
		w.Remove()

		// bad: as long as b; what its second block confirms spends more than there is
		w = world()
		u.replay(w, u.prefix)
		w.SnapGap = 4 * time.Second
		d1 := send(w, 0, 3, 80)
		cut(w, &u.bad, "d3", nil, d1)
		d2, err := kit.Reencode(send(w, 1, 3, 90))
		must(err)
		d2.Amount = new(big.Int).Mul(kit.UserBalance, big.NewInt(2))
		d2.Hash = d2.ComputeHash()
		d2.Signature, d2.PublicKey, _ = U[1].Sign(d2.Hash.Bytes())
		prev := u.bad[0].sb
		for i := 0; i < 4; i++ {
			ts := prev.Timestamp.Add(time.Second)
			n := &ledger.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &ts, Version: prev.Version, SnapshotContent: ledger.SnapshotContent{}}
			var abs []*ledger.AccountBlock
			if i == 0 {
				n.SnapshotContent[d2.AccountAddress] = &ledger.HashHeight{Height: d2.Height, Hash: d2.Hash}
				abs = append(abs, d2)
				u.byHash[d2.Hash], u.names[d2.Hash] = d2, "d4.0"
			}
			n.Hash = n.ComputeHash()
			n.Signature, n.PublicKey, _ = kit.Producer.Sign(n.Hash.Bytes())
			nm := fmt.Sprintf("d%d", n.Height)
			u.bad = append(u.bad, step{nm, abs, n})
			u.sbHash[n.Hash], u.names[n.Hash] = n, nm
			prev = n
		}
		w.Remove()

		// what the node itself makes after the prefix
		w = world()
		u.replay(w, u.prefix)
		w.SnapGap = 5 * time.Second
		u.own[0] = send(w, 3, 0, 100)
		u.own[1] = send(w, 3, 1, 110)
		var l []step
		cut(w, &l, "o3", nil, u.own[0], u.own[1])
		u.ownSb = l[0].sb
		w.Remove()

		// final: six blocks of three producers, of which the fourth is irreversible; rivals leave after 3 and after 5
		P := []*kit.Acct{kit.NewAcct(0xD1), kit.NewAcct(0xD2), kit.NewAcct(0xD3)}
		w = world()
		w.SnapGap = 30 * time.Second
		for i := 0; i < 6; i++ {
			if i == 3 {
				w.SnapGap = 10 * time.Second
			}
			cut(w, &u.final, fmt.Sprintf("f%d", i+2), P[i%3], send(w, i%4, (i+1)%4, int64(120+i)))
		}
		w.Remove()
		for _, at := range []int{2, 4} {
			w = world()
			u.replay(w, u.final[:at])
			var l []step
			w.SnapGap = 12 * time.Second
			for i := 0; i < 9-at; i++ {
				cut(w, &l, fmt.Sprintf("r%d-%d", at+1, at+2+i), P[2], send(w, (i+1)%4, i%4, int64(130+i)))
				w.SnapGap = time.Second
			}
			u.rivals = append(u.rivals, l)
			w.Remove()
		}
	})
}

// peers is the network the pool sees.
type peers struct {
	mu      sync.Mutex
	acc     net.AccountBlockCallback
	snap    net.SnapshotBlockCallback
	answer  bool
	chunk   []*net.Chunk
	fetched map[string]bool
	sent    []types.Hash // what the node announced itself
	delay   time.Duration
	stop    bool
}

func (p *peers) BroadcastSnapshotBlock(b *ledger.SnapshotBlock) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.sent = append(p.sent, b.Hash)
}
func (p *peers) BroadcastSnapshotBlocks(bs []*ledger.SnapshotBlock) {}
func (p *peers) BroadcastAccountBlock(b *ledger.AccountBlock) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.sent = append(p.sent, b.Hash)
}
func (p *peers) BroadcastAccountBlocks(bs []*ledger.AccountBlock) {}
func (p *peers) SubscribeAccountBlock(fn net.AccountBlockCallback) int {
	p.acc = fn
	return 1
}
func (p *peers) UnsubscribeAccountBlock(int) {}
func (p *peers) SubscribeSnapshotBlock(fn net.SnapshotBlockCallback) int {
	p.snap = fn
	return 1
}
func (p *peers) UnsubscribeSnapshotBlock(int)                     {}
func (p *peers) SubscribeSyncStatus(fn net.SyncStateCallback) int { return 1 }
func (p *peers) UnsubscribeSyncStatus(int)                        {}
func (p *peers) SyncState() net.SyncState                         { return net.SyncDone }
func (p *peers) Peek() *net.Chunk {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.chunk) == 0 {
		return nil
	}
	return p.chunk[0]
}
func (p *peers) Pop(h types.Hash) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.chunk) > 0 && p.chunk[0].SnapshotRange[1].Hash == h {
		p.chunk = p.chunk[1:]
	}
}

// a peer that has everything answers
func (p *peers) FetchSnapshotBlocks(h types.Hash, n uint64) {
	go func() {
		for ; n > 0; n-- {
			b := u.sbHash[h]
			if b == nil || !p.on() {
				return
			}
			p.snap(copySb(b), types.RemoteFetch)
			h = b.PrevHash
		}
	}()
}
func (p *peers) FetchSnapshotBlocksWithHeight(h types.Hash, height uint64, n uint64) {
	p.FetchSnapshotBlocks(h, n)
}
func (p *peers) FetchAccountBlocks(h types.Hash, n uint64, a *types.Address) {
	go func() {
		for ; n > 0; n-- {
			b := u.byHash[h]
			if b == nil || !p.on() {
				return
			}
			p.acc(b.AccountAddress, copyAb(b), types.RemoteFetch)
			h = b.PrevHash
		}
	}()
}
func (p *peers) FetchAccountBlocksWithHeight(h types.Hash, n uint64, a *types.Address, sh uint64) {
	p.FetchAccountBlocks(h, n, a)
}
func (p *peers) on() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.answer && !p.stop
}

func copySb(b *ledger.SnapshotBlock) *ledger.SnapshotBlock {
	buf, err := b.Serialize()
	must(err)
	n := &ledger.SnapshotBlock{}
	must(n.Deserialize(buf))
	return n
}

func copyAb(b *ledger.AccountBlock) *ledger.AccountBlock {
	n, err := kit.Reencode(b)
	must(err)
	return n
}

// watch records what enters and leaves the ledger.
type watch struct {
	mu     sync.Mutex
	w      *kit.World
	c      *explore.C
	events []string
	top    uint64 // height before the last removal
	back   bool
	bad    string
}

func (x *watch) PrepareInsertAccountBlocks([]*interfaces.VmAccountBlock) error { return nil }
func (x *watch) InsertAccountBlocks(l []*interfaces.VmAccountBlock) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, b := range l {
		x.events = append(x.events, "+"+name(b.AccountBlock.Hash))
	}
	return nil
}
func (x *watch) PrepareInsertSnapshotBlocks([]*ledger.SnapshotChunk) error { return nil }
func (x *watch) InsertSnapshotBlocks(l []*ledger.SnapshotChunk) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, b := range l {
		x.events = append(x.events, "+"+name(b.SnapshotBlock.Hash))
	}
	return nil
}
func (x *watch) PrepareDeleteAccountBlocks([]*ledger.AccountBlock) error { return nil }
func (x *watch) DeleteAccountBlocks(l []*ledger.AccountBlock) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, b := range l {
		x.events = append(x.events, "-"+name(b.Hash))
	}
	return nil
}
func (x *watch) PrepareDeleteSnapshotBlocks([]*ledger.SnapshotChunk) error { return nil }
func (x *watch) DeleteSnapshotBlocks(l []*ledger.SnapshotChunk) error {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, b := range l {
		for _, a := range b.AccountBlocks {
			x.events = append(x.events, "-"+name(a.Hash))
		}
		if b.SnapshotBlock != nil {
			x.events = append(x.events, "-"+name(b.SnapshotBlock.Hash))
		}
	}
	return nil
}
func (x *watch) text() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return strings.Join(x.events, " ")
}

func name(h types.Hash) string {
	if n := u.names[h]; n != "" {
		return n
	}
	return h.String()[:8]
}

// reader tells the pool how many producers there are.
type reader struct {
	core.SBPStatReader
	n  int
	ti core.TimeIndex
}

func (r reader) GetNodeCount() int                  { return r.n }
func (r reader) GetPeriodTimeIndex() core.TimeIndex { return r.ti }

type node struct {
	c  *explore.C
	w  *kit.World
	p  *peers
	pl pool.BlockPool
	x  *watch
}

func start(c *explore.C, answer bool, nodes int) *node {
	build()
	w := world()
	n := &node{c: c, w: w, p: &peers{answer: answer}, x: &watch{w: w, c: c}}
	pl, err := pool.NewPool(w.Chain)
	must(err)
	pl.Init(n.p, w.V, reader{n: nodes, ti: core.NewTimeIndex(w.Genesis, 75*time.Second)})
	w.Chain.Register(n.x)
	pl.Start()
	n.pl = pl
	c.Defer(func() {
		n.p.mu.Lock()
		n.p.stop = true
		n.p.mu.Unlock()
		pl.Stop()
		w.Remove()
	})
	return n
}

func (n *node) give(s step, what string) {
	if what != "sb" {
		for _, b := range s.abs {
			n.ab(b)
		}
	}
	if what != "ab" {
		n.sb(s.sb)
	}
}
func (n *node) ab(b *ledger.AccountBlock) {
	n.c.Op("%s arrives", name(b.Hash))
	n.p.acc(b.AccountAddress, copyAb(b), types.RemoteBroadcast)
}
func (n *node) sb(b *ledger.SnapshotBlock) {
	n.c.Op("%s arrives", name(b.Hash))
	n.p.snap(copySb(b), types.RemoteBroadcast)
}

// Patience is how long the ledger may take to follow.
const Patience = 70 * time.Second

func within(d time.Duration, f func() bool) bool {
	t := time.Now()
	for time.Since(t) < d {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return f()
}

// follows waits until the ledger's chain ends in sb and compares what it says with a ledger that never saw
// anything else.
func (n *node) follows(key string, sb *ledger.SnapshotBlock) {
	if !within(Patience, func() bool { return n.w.Chain.GetLatestSnapshotBlock().Hash == sb.Hash }) {
		n.c.Fail(key, "after %v the ledger ends in %s, not in %s\n%s\n%v", Patience, name(n.w.Chain.GetLatestSnapshotBlock().Hash), name(sb.Hash), n.x.text(), n.info())
	}
	n.pl.LockInsert()
	defer n.pl.UnLockInsert()
	if got := stateOf(n.w); got != u.state[sb.Hash] {
		n.c.Fail(key+"-state", "the ledger ends in %s and says\n%s\nbut a ledger that followed only this chain says\n%s\n%s", name(sb.Hash), got, u.state[sb.Hash], n.x.text())
	}
	n.c.State()
}

func (n *node) info() string {
	m := n.pl.Info()
	return kit.JSON(m["snapshot"])
}

// order chooses an order of k things.
func order(c *explore.C, k int) []int {
	var l, out []int
	for i := 0; i < k; i++ {
		l = append(l, i)
	}
	for len(l) > 0 {
		i := c.Choose(len(l))
		out = append(out, l[i])
		l = append(l[:i], l[i+1:]...)
	}
	return out
}

// forks: the snapshot blocks of both chains in every order; the account blocks before, after, or only on request.
func forks(mode string) func(c *explore.C) {
	return func(c *explore.C) {
		n := start(c, mode == "fetch", 0)
		n.give(u.prefix[0], "")
		settled := c.Bool()
		all := append(append([]step{}, u.a...), u.b[:4]...)
		if settled {
			// the node follows a first
			n.give(u.a[0], "")
			n.follows("first", u.a[0].sb)
			all = all[1:]
		}
		if mode == "before" {
			for _, s := range all {
				n.give(s, "ab")
			}
		}
		for _, i := range order(c, len(all)) {
			n.give(all[i], "sb")
			if mode == "slow" {
				time.Sleep(150 * time.Millisecond)
			}
		}
		if mode == "after" || mode == "slow" {
			for i := len(all) - 1; i >= 0; i-- {
				n.give(all[i], "ab")
			}
		}
		n.follows("longest", u.b[3].sb)
		n.give(u.b[4], "")
		n.follows("next", u.b[4].sb)
	}
}

// three: groups of blocks of three chains in every order.
func three(c *explore.C) {
	n := start(c, c.Bool(), 0)
	n.give(u.prefix[0], "")
	groups := [][]step{u.a, u.b[:2], u.b[2:4], u.e[:3], u.e[3:]}
	for _, i := range order(c, len(groups)) {
		for _, s := range groups[i] {
			n.give(s, "")
		}
		if n.p.on() {
			time.Sleep(100 * time.Millisecond)
		}
	}
	n.follows("longest", u.e[4].sb)
}

// twice: every block comes twice, the second time in another order.
func twice(c *explore.C) {
	n := start(c, false, 0)
	n.give(u.prefix[0], "")
	all := append(append([]step{}, u.a...), u.b[:4]...)
	first := c.Choose(2)
	for i := range all {
		if first == 1 {
			i = len(all) - 1 - i
		}
		n.give(all[i], "")
	}
	for _, i := range order(c, len(all)) {
		n.give(all[i], "")
	}
	n.follows("longest", u.b[3].sb)
	n.give(u.b[4], "")
	n.give(u.b[3], "")
	n.give(u.a[0], "")
	n.follows("next", u.b[4].sb)
}

// accounts: account blocks that need one another, in every order, before any snapshot block.
func accounts(c *explore.C) {
	n := start(c, c.Bool(), 0)
	n.give(u.prefix[0], "")
	n.follows("first", u.prefix[0].sb)
	var l []*ledger.AccountBlock
	for _, s := range u.b[:3] {
		l = append(l, s.abs...)
	}
	for _, i := range order(c, len(l)) {
		n.ab(l[i])
	}
	for _, b := range l {
		b := b
		if !within(Patience, func() bool {
			x, err := n.w.Chain.GetAccountBlockByHash(b.Hash)
			return err == nil && x != nil
		}) {
			c.Fail("account-lost", "everything %s needs has arrived, and after %v it is not in the ledger\n%s", name(b.Hash), Patience, n.x.text())
		}
	}
	c.State()
	for _, s := range u.b[:3] {
		n.sb(s.sb)
	}
	n.follows("confirmed", u.b[2].sb)
}

// rival: two blocks of the same account at the same height, then a snapshot block that names one of them.
func rival(c *explore.C) {
	n := start(c, c.Bool(), 0)
	n.give(u.prefix[0], "")
	n.follows("first", u.prefix[0].sb)
	l := append(append([]*ledger.AccountBlock{}, u.a[0].abs...), u.b[0].abs...)
	for _, i := range order(c, len(l)) {
		n.ab(l[i])
		if c.Bool() {
			time.Sleep(120 * time.Millisecond)
		}
	}
	time.Sleep(200 * time.Millisecond)
	to := [][]step{u.a, u.b[:1]}[c.Choose(2)]
	n.sb(to[0].sb)
	n.follows("named", to[0].sb)
}

// chunks: a downloaded piece of b, cut anywhere, while the node follows nothing, a, or the beginning of b.
func chunks(c *explore.C) {
	n := start(c, true, 0)
	n.give(u.prefix[0], "")
	n.follows("first", u.prefix[0].sb)
	at := c.Choose(4) // 0: nothing more, 1: a, 2: b3, 3: b3 and b4
	if at == 1 {
		n.give(u.a[0], "")
		n.follows("a", u.a[0].sb)
	}
	if at > 1 {
		for _, s := range u.b[:at-1] {
			n.give(s, "")
		}
		n.follows("b", u.b[at-2].sb)
	}
	var ch []*net.Chunk
	var cur []ledger.SnapshotChunk
	put := func() {
		if len(cur) > 0 {
			ch = append(ch, net.NewChunk(cur, types.RemoteSync))
			cur = nil
		}
	}
	for i, s := range u.b {
		// (a piece that forks off has to be long enough to be followed: the next is only taken when it fits)
		if (at != 1 || i == 4) && c.Bool() {
			put()
		}
		x := ledger.SnapshotChunk{SnapshotBlock: copySb(s.sb)}
		for _, b := range s.abs {
			x.AccountBlocks = append(x.AccountBlocks, copyAb(b))
		}
		cur = append(cur, x)
	}
	put()
	c.Op("%d chunks", len(ch))
	n.p.mu.Lock()
	n.p.chunk = ch
	n.p.mu.Unlock()
	n.follows("downloaded", u.b[4].sb)
	if !within(Patience, func() bool { return n.p.Peek() == nil }) {
		c.Fail("chunk-kept", "everything is in the ledger and a chunk is still not taken")
	}
}

// invalid: the longest chain turns out invalid.
func invalid(c *explore.C) {
	n := start(c, c.Bool(), 0)
	n.give(u.prefix[0], "")
	n.give(u.a[0], "")
	n.follows("first", u.a[0].sb)
	for _, s := range u.bad {
		n.give(s, "ab")
	}
	for _, i := range order(c, len(u.bad)-1) {
		n.give(u.bad[i], "sb")
	}
	n.give(u.bad[len(u.bad)-1], "sb")
	then := c.Choose(2)
	time.Sleep(time.Duration(then) * 5 * time.Second)
	for _, s := range u.b[:5] {
		n.give(s, "")
	}
	n.follows("valid", u.b[4].sb)
	if b, _ := n.w.Chain.GetAccountBlockByHash(u.bad[1].abs[0].Hash); b != nil || strings.Contains(n.x.text(), "+d4") {
		c.Fail("invalid-in", "an invalid block entered the ledger: %s", n.x.text())
	}
}

// own: what the node makes itself, while others' blocks arrive.
func own(c *explore.C) {
	n := start(c, true, 0)
	n.give(u.prefix[0], "")
	n.follows("first", u.prefix[0].sb)
	made := 0
	late := c.Choose(4) // after how many of the node's own blocks the others' chain arrives
	arrive := func() {
		if made == late {
			for _, s := range u.b[:4] {
				n.give(s, "")
			}
			if c.Bool() {
				n.follows("theirs", u.b[3].sb)
			}
		}
	}
	arrive()
	for i := 0; i < 2; i++ {
		b := copyAb(u.own[i])
		_, v, err := n.w.V.VerifyPoolAccountBlock(b, n.w.Chain.GetLatestSnapshotBlock())
		if err == nil && v != nil {
			err = n.pl.AddDirectAccountBlock(b.AccountAddress, v)
		}
		c.Op("own block %d: %v", i, err)
		if err != nil {
			c.Fail("own", "the node's own block %d is refused: %v", i, err)
		}
		if x, _ := n.w.Chain.GetAccountBlockByHash(b.Hash); x == nil {
			c.Fail("own-in", "the node's own block %d was taken and is not in the ledger", i)
		}
		made++
		arrive()
	}
	n.pl.LockInsert()
	head := n.w.Chain.GetLatestSnapshotBlock().Hash
	err := n.pl.AddDirectSnapshotBlock(copySb(u.ownSb))
	after := n.w.Chain.GetLatestSnapshotBlock().Hash
	n.pl.UnLockInsert()
	c.Op("own snapshot on %s: %v", name(head), err)
	if (err == nil) != (head == u.ownSb.PrevHash) {
		c.Fail("own-snapshot", "the ledger ends in %s, the node's own snapshot block follows c2: %v", name(head), err)
	}
	if want := map[bool]types.Hash{true: u.ownSb.Hash, false: head}[err == nil]; after != want {
		c.Fail("own-snapshot-in", "after it (%v) the ledger ends in %s instead of %s", err, name(after), name(want))
	}
	made++
	arrive()
	n.follows("longest", u.b[3].sb)
	for i := range u.own {
		if !within(Patience, func() bool { x, _ := n.w.Chain.GetAccountBlockByHash(u.own[i].Hash); return x != nil }) {
			c.Fail("own-lost", "own block %d is valid on the chain the node switched to and is lost: %s", i, n.x.text())
		}
	}
	n.p.mu.Lock()
	defer n.p.mu.Unlock()
	for i := range u.own {
		ok := false
		for _, h := range n.p.sent {
			ok = ok || h == u.own[i].Hash
		}
		if !ok {
			c.Fail("own-announced", "own block %d was not announced", i)
		}
	}
}

// final: a longer chain that would remove an irreversible block is not followed, one that would not is.
func final(c *explore.C) {
	n := start(c, c.Bool(), 3)
	for _, s := range u.final {
		n.give(s, "")
	}
	top := u.final[len(u.final)-1].sb
	n.follows("first", top)
	irr := u.final[2].sb
	asked := c.Bool()
	if asked {
		if b := n.pl.GetIrreversibleBlock(); b == nil || b.Hash != irr.Hash {
			c.Fail("irreversible", "the irreversible block is %v, three of three producers built on f4", b)
		}
	}
	r := u.rivals[0]
	for _, s := range r {
		n.give(s, "")
	}
	time.Sleep(5 * time.Second)
	if n.w.Chain.GetLatestSnapshotBlock().Hash != top.Hash || strings.Contains(n.x.text(), "-f") {
		c.Fail("final-removed", "a longer chain removed irreversible blocks: %s", n.x.text())
	}
	c.State()
	if b := n.pl.GetIrreversibleBlock(); b == nil || b.Hash != irr.Hash {
		c.Fail("irreversible", "the irreversible block is %v, three of three producers built on f4", b)
	}
	for _, s := range u.rivals[1] {
		n.give(s, "")
	}
	x := u.rivals[1]
	n.follows("longest", x[len(x)-1].sb)
}

// merge: the steps of three chains in every order that keeps each chain's own order.
func merge(c *explore.C) {
	n := start(c, false, 0)
	n.give(u.prefix[0], "")
	q := [][]step{u.a, u.b[:4], u.e}
	for {
		var l []int
		for i := range q {
			if len(q[i]) > 0 {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			break
		}
		i := l[c.Choose(len(l))]
		n.give(q[i][0], "")
		q[i] = q[i][1:]
	}
	n.follows("longest", u.e[4].sb)
}

func main() {
	explore.Main(explore.Suite{Property: "P03", Workers: 48, QuickBudget: 170 * time.Second, ThoroughBudget: 40 * time.Minute,
		Assumptions: []string{
			"The pool's timers, its random choices and the goroutines inside one insertion run as they come; the check asks only for what must hold for all of them, and waits up to 70 s for it (2 to 10 s are usual).",
			"Consensus and the network are the harness's own: every producer counts as elected, peers answer requests from the set of all blocks, or not at all.",
		},
		Scenarios: func(tier string) []explore.Scenario {
			var l []explore.Scenario
			add := func(n, b string, f func(c *explore.C)) {
				l = append(l, explore.Scenario{Name: n, Bound: b, Body: f, Timeout: 160 * time.Second})
			}
			fb := "a chain of one and one of four snapshot blocks that spend the same tokens otherwise; their snapshot blocks in every order, while the node follows neither or the shorter; the account blocks "
			add("forks-before", fb+"come before", forks("before"))
			add("forks-after", fb+"come after, last first", forks("after"))
			add("forks-fetch", fb+"come only when asked for", forks("fetch"))
			add("three", "three chains of 1, 4 and 7 blocks, two of which share the first two: five groups of their blocks in every order, with and without answers to requests", three)
			add("twice", "two chains forwards or backwards, then every block again, in every order", twice)
			add("accounts", "five account blocks that need one another in every order, before the snapshot blocks that confirm them", accounts)
			add("rival", "three account blocks, two of them rivals, in every order with and without pauses, then a snapshot block that names one or the other", rival)
			add("chunks", "a chain of five snapshot blocks downloaded in every division into chunks, while the node follows nothing, a rival or the beginning of the chain", chunks)
			add("invalid", "the longest chain confirms an invalid payment; its snapshot blocks in every order, then, at once or after 5 s, a shorter valid chain", invalid)
			add("own", "two account blocks and a snapshot block of the node's own; a longer chain arrives before, between or after them", own)
			add("final", "three producers, the fifth of seven blocks irreversible; a longer chain that leaves before it, then one that leaves after it", final)
			if tier == "thorough" {
				add("forks-slow", fb+"come after, everything with pauses of 150 ms", forks("slow"))
				add("merge", "three chains of 1, 4 and 7 blocks: every order of their blocks that keeps the order within each", merge)
			}
			return l
		}})
}
