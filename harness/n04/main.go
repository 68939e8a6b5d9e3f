// Property N04: new blocks spread: a valid one reaches the node's pool once and the other peers, an invalid
// one nobody.
package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/explore"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
	"github.com/vitelabs/go-vite/v2/zz_verif/netkit"
)

const snapshots = 106

// site is one running node with what it delivers to its pool.
type site struct {
	n     *netkit.Node
	mu    sync.Mutex
	got   []string
	black [2]string
	keep  []*netkit.Peer
	sub   [2]int
	bs    *ledger.SnapshotBlock // black
	ba    *ledger.AccountBlock
}

var sites = map[string]*site{}

var world *World
var counter uint64

func unique() uint64 {
	counter++
	return uint64(os.Getpid())<<24 | counter
}

func newSnapshot(w *World) *ledger.SnapshotBlock { return w.NextSnapshot(nil, unique()) }

func newAccount(w *World) *ledger.AccountBlock {
	u := Users[0]
	prev, err := w.Chain.GetLatestAccountBlock(u.Addr)
	if err != nil || prev == nil {
		panic("no block of user 0")
	}
	d := make([]byte, 8)
	binary.BigEndian.PutUint64(d, unique())
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, PrevHash: prev.Hash, Height: prev.Height + 1, AccountAddress: u.Addr,
		ToAddress: Users[1].Addr, Amount: big.NewInt(1), TokenId: ledger.ViteTokenId, Fee: big.NewInt(0), Data: d}
	b.Hash = b.ComputeHash()
	sig, pub, err := u.Sign(b.Hash.Bytes())
	if err != nil {
		panic(err)
	}
	b.Signature, b.PublicKey = sig, pub
	return b
}

func theSite(c *C, strategy string) *site {
	if s := sites[strategy]; s != nil {
		return s
	}
	if world == nil {
		world, _ = netkit.NewWorld(explore.MkTemp("n04-"), snapshots, 4)
	}
	w := world
	s := &site{bs: newSnapshot(w), ba: newAccount(w)}
	s.n = netkit.Start(w, w.V, &netkit.Css{}, &netkit.Irr{B: w.Chain.GetGenesisSnapshotBlock()}, func(cfg *config.Net) {
		cfg.ForwardStrategy = strings.Split(strategy, ":")[0]
		cfg.BlackBlockHashList = []string{s.bs.Hash.Hex(), s.ba.Hash.Hex() + "/5"}
	})
	put := func(h types.Hash, source types.BlockSource) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.got = append(s.got, fmt.Sprintf("%s/%d", h, source))
	}
	s.sub[0] = s.n.Net.SubscribeSnapshotBlock(func(b *ledger.SnapshotBlock, source types.BlockSource) {
		if strategy != "raw" && b.ComputeHash() != b.Hash {
			put(types.Hash{}, source)
		}
		put(b.Hash, source)
	})
	s.sub[1] = s.n.Net.SubscribeAccountBlock(func(a types.Address, b *ledger.AccountBlock, source types.BlockSource) {
		if a != b.AccountAddress || b.ComputeHash() != b.Hash {
			put(types.Hash{}, source)
		}
		put(b.Hash, source)
	})
	for i := 0; i < 3; i++ { // with three peers around the node finds out that it need not download
		s.keep = append(s.keep, s.peer(c))
	}
	if !netkit.Until(func() bool {
		s.again(c)
		return s.n.Net.SyncState() == net.SyncDone
	}) {
		c.Fail("sync-state", "a node whose peers are lower stays in state %v", s.n.Net.SyncState())
	}
	for _, p := range s.keep {
		p.Close()
	}
	s.keep = nil
	netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
	sites[strategy] = s
	return s
}

// again keeps the first peers connected.
func (s *site) again(c *C) {
	for i, p := range s.keep {
		if _, ok := p.Sync(); !ok {
			s.keep[i] = s.peer(c)
		}
	}
}

func (s *site) peer(c *C) *netkit.Peer {
	p, why := s.n.Connect(nil)
	if p == nil {
		c.Fail("refused", "the node refuses a correct peer (%d)", why)
	}
	if _, ok := p.Sync(); !ok {
		c.Fail("closed", "the node ends the connection of a correct peer")
	}
	return p
}

func (s *site) delivered() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := append([]string{}, s.got...)
	s.got = nil
	sort.Strings(l)
	return strings.Join(l, " ")
}

// news decodes what a peer was told.
func news(c *C, p *netkit.Peer, name string) []string {
	ms, ok := p.Sync()
	if !ok {
		c.Fail("dropped", "peer %s, which did nothing wrong, is dropped", name)
	}
	var l []string
	for _, m := range ms {
		switch m.Code {
		case net.CodeNewSnapshotBlock:
			x := &net.NewSnapshotBlock{}
			if err := x.Deserialize(m.Payload); err != nil {
				c.Fail("decode", "%v", err)
			}
			if err := world.V.VerifyNetSnapshotBlock(x.Block); err != nil {
				c.Fail("relay-invalid", "peer %s gets an invalid block: %v", name, err)
			}
			l = append(l, fmt.Sprintf("%s/%d", x.Block.Hash, x.TTL))
		case net.CodeNewAccountBlock:
			x := &net.NewAccountBlock{}
			if err := x.Deserialize(m.Payload); err != nil {
				c.Fail("decode", "%v", err)
			}
			if err := world.V.VerifyNetAccountBlock(x.Block); err != nil {
				c.Fail("relay-invalid", "peer %s gets an invalid block: %v", name, err)
			}
			l = append(l, fmt.Sprintf("%s/%d", x.Block.Hash, x.TTL))
		default:
			c.Fail("unasked", "peer %s gets a message of code %d", name, m.Code)
		}
	}
	return l
}

type block struct {
	s *ledger.SnapshotBlock
	a *ledger.AccountBlock
}

func (b block) hash() types.Hash {
	if b.s != nil {
		return b.s.Hash
	}
	return b.a.Hash
}

func enc(s interface{ Serialize() ([]byte, error) }) []byte {
	b, err := s.Serialize()
	if err != nil {
		panic(err)
	}
	return b
}

func (b block) msg(ttl int32) (byte, []byte) {
	if b.s != nil {
		return net.CodeNewSnapshotBlock, enc(&net.NewSnapshotBlock{Block: b.s, TTL: ttl})
	}
	return net.CodeNewAccountBlock, enc(&net.NewAccountBlock{Block: b.a, TTL: ttl})
}

// bad is a copy of the block that is not valid.
func (b block) bad(kind string) block {
	var r block
	if b.s != nil {
		x := *b.s
		r.s = &x
		switch kind {
		case "signature":
			x.Signature = append([]byte{}, x.Signature...)
			x.Signature[5] ^= 1
		case "hash":
			x.Hash[3] ^= 1
		case "content":
			x.Seed ^= 1
		case "unsigned":
			x.Signature = nil
		}
		return r
	}
	x := *b.a
	r.a = &x
	switch kind {
	case "signature":
		x.Signature = append([]byte{}, x.Signature...)
		x.Signature[5] ^= 1
	case "hash":
		x.Hash[3] ^= 1
	case "content":
		x.Amount = big.NewInt(2)
	case "unsigned":
		x.Signature, x.PublicKey = nil, nil
	}
	return r
}

// spread: sequences of copies of one block from two peers and the node itself, with a third listening.
func spread(strategy string, depth int) func(c *C) {
	return func(c *C) {
		s := theSite(c, strategy)
		w := s.n.W
		var b block
		kind := c.Choose(4) // new snapshot block, new account block, black ones
		switch kind {
		case 0:
			b.s = newSnapshot(w)
		case 1:
			b.a = newAccount(w)
		case 2:
			b.s = s.bs
		case 3:
			b.a = s.ba
		}
		black := kind >= 2
		if black {
			depth = 1
		}
		names := []string{"A", "B", "C"}
		ps := map[string]*netkit.Peer{}
		for _, x := range names {
			ps[x] = s.peer(c)
		}
		c.Defer(func() {
			for _, p := range ps {
				p.Close()
			}
			netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
		})
		s.delivered()
		c.Op("a block of kind %d", kind)
		seen := false
		for i := 0; i < depth; i++ {
			ops := 17
			k := c.Choose(ops)
			expect := map[string]string{}
			deliver := ""
			if k == 16 {
				c.Op("the node announces it")
				if b.s != nil {
					s.n.Net.BroadcastSnapshotBlock(b.s)
				} else {
					s.n.Net.BroadcastAccountBlock(b.a)
				}
				seen = true
				for _, x := range names {
					expect[x] = fmt.Sprintf("%s/%d", b.hash(), 32)
				}
			} else {
				who := names[k%2]
				v := k / 2
				if v < 4 {
					ttl := []int32{0, 1, 5, 32}[v]
					c.Op("%s sends it with ttl %d", who, ttl)
					ps[who].Send2(b.msg(ttl))
					if !seen && !black {
						deliver = fmt.Sprintf("%s/%d", b.hash(), types.RemoteBroadcast)
					}
					if !seen && ttl > 0 {
						for _, x := range names {
							if x != who {
								expect[x] = fmt.Sprintf("%s/%d", b.hash(), ttl-1)
							}
						}
					}
					seen = true
				} else {
					how := []string{"signature", "hash", "content", "unsigned"}[v-4]
					c.Op("%s sends a copy with a wrong %s", who, how)
					ps[who].Send2(b.bad(how).msg(5))
				}
				if _, ok := ps[who].Sync(); !ok {
					if v < 4 {
						c.Fail("dropped", "peer %s, which did nothing wrong, is dropped", who)
					}
					// the node has dropped it
					ps[who].Close()
					ps[who] = s.peer(c)
				}
			}
			for _, x := range names {
				got := strings.Join(news(c, ps[x], x), " ")
				if black && got == "" {
					continue // whether a black block is passed on is not specified
				}
				if black && expect[x] == "" {
					continue
				}
				if got != expect[x] {
					c.Fail("relay", "peer %s is told %q instead of %q", x, got, expect[x])
				}
			}
			if got := s.delivered(); got != deliver {
				c.Fail("delivery", "delivered %q instead of %q", got, deliver)
			}
			c.State()
		}
	}
}

// old: announcements of blocks far below the head are ignored.
func old(c *C) {
	s := theSite(c, "full")
	p, q := s.peer(c), s.peer(c)
	c.Defer(func() {
		p.Close()
		q.Close()
		netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
	})
	h := uint64(1 + c.Choose(snapshots+1))
	b, err := s.n.W.Chain.GetSnapshotBlockByHeight(h)
	if err != nil || b == nil {
		c.Fail("ledger", "%v", err)
	}
	x := *b
	x.Seed = unique() // another block of that height
	if h > 1 {
		x.Hash = x.ComputeHash()
		sig, pub, err := Producer.Sign(x.Hash.Bytes())
		if err != nil {
			panic(err)
		}
		x.Signature, x.PublicKey = sig, pub
	}
	s.delivered()
	c.Op("announcement for height %d", h)
	p.Send2(block{s: &x}.msg(3))
	_, ok := p.Sync()
	got := s.delivered()
	told := strings.Join(news(c, q, "Q"), " ")
	want, tell := "", ""
	if h+100 >= snapshots+1 {
		want, tell = fmt.Sprintf("%s/%d", x.Hash, types.RemoteBroadcast), fmt.Sprintf("%s/2", x.Hash)
	}
	if h > 1 && (!ok || got != want || told != tell) {
		c.Fail("old", "a block at %d while the head is %d: delivered %q, told %q, still connected %v", h, snapshots+1, got, told, ok)
	}
	c.State()
}

// subscriptions: who is told what as subscribers come and go.
func subscriptions(depth int) func(c *C) {
	return func(c *C) {
		s := theSite(c, "full")
		p := s.peer(c)
		type sub struct {
			snap bool
			id   int
			got  int
		}
		var mu sync.Mutex
		var subs []*sub
		c.Defer(func() {
			p.Close()
			for _, x := range subs {
				if x.snap {
					s.n.Net.UnsubscribeSnapshotBlock(x.id)
				} else {
					s.n.Net.UnsubscribeAccountBlock(x.id)
				}
			}
			netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
		})
		gone := map[*sub]bool{}
		for i := 0; i < depth; i++ {
			k := c.Choose(4)
			switch k {
			case 0, 1:
				x := &sub{snap: k == 0}
				c.Op("subscribe snapshot blocks %v", x.snap)
				if x.snap {
					x.id = s.n.Net.SubscribeSnapshotBlock(func(*ledger.SnapshotBlock, types.BlockSource) { mu.Lock(); x.got++; mu.Unlock() })
				} else {
					x.id = s.n.Net.SubscribeAccountBlock(func(types.Address, *ledger.AccountBlock, types.BlockSource) { mu.Lock(); x.got++; mu.Unlock() })
				}
				if x.id <= 0 {
					c.Fail("subscription-id", "subscription %d", x.id)
				}
				subs = append(subs, x)
			default:
				var l []*sub
				for _, x := range subs {
					if !gone[x] {
						l = append(l, x)
					}
				}
				if len(l) == 0 {
					c.Prune()
				}
				x := l[0]
				if k == 3 {
					x = l[len(l)-1]
				}
				if k == 3 && len(l) == 1 {
					c.Prune()
				}
				c.Op("unsubscribe %d (snapshot blocks %v)", x.id, x.snap)
				if x.snap {
					s.n.Net.UnsubscribeSnapshotBlock(x.id)
				} else {
					s.n.Net.UnsubscribeAccountBlock(x.id)
				}
				gone[x] = true
			}
			for _, b := range []block{{s: newSnapshot(s.n.W)}, {a: newAccount(s.n.W)}} {
				p.Send2(b.msg(0))
				if _, ok := p.Sync(); !ok {
					c.Fail("dropped", "a correct peer is dropped")
				}
				mu.Lock()
				for _, x := range subs {
					want := 0
					if !gone[x] && x.snap == (b.s != nil) {
						want = 1
					}
					if x.got != want {
						got := x.got
						mu.Unlock()
						c.Fail("subscriber", "a subscriber (snapshot blocks %v, gone %v) is told %d times of a new block (snapshot %v)", x.snap, gone[x], got, b.s != nil)
					}
					x.got = 0
				}
				mu.Unlock()
				c.State()
			}
		}
		s.delivered()
	}
}

// neighbours: peers that the sender is known to be connected to need not all be told, the others must be.
func neighbours(depth int) func(c *C) {
	return func(c *C) {
		s := theSite(c, "cross")
		names := []string{"A", "B", "C", "D", "E"}
		ps := map[string]*netkit.Peer{}
		for _, x := range names {
			ps[x] = s.peer(c)
		}
		c.Defer(func() {
			for _, p := range ps {
				p.Close()
			}
			netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
		})
		known := map[string]bool{}
		for i := 0; i < depth; i++ {
			patch := c.Bool()
			beat := &vitepb.State{Patch: patch, Height: 1, Head: s.n.W.Chain.GetGenesisSnapshotBlock().Hash.Bytes(), Timestamp: time.Now().Unix()}
			if !patch {
				known = map[string]bool{}
			}
			var text []string
			for j, x := range names[1:4] {
				if i > 0 && j == 2 {
					break
				}
				switch c.Choose(3) {
				case 1:
					beat.Peers = append(beat.Peers, &vitepb.State_Peer{ID: ps[x].ID.Bytes(), Status: vitepb.State_Connected})
					known[x] = true
					text = append(text, "+"+x)
				case 2:
					beat.Peers = append(beat.Peers, &vitepb.State_Peer{ID: ps[x].ID.Bytes(), Status: vitepb.State_Disconnected})
					delete(known, x)
					text = append(text, "-"+x)
				}
			}
			c.Op("A says (change %v) %v", patch, text)
			buf, err := proto.Marshal(beat)
			if err != nil {
				panic(err)
			}
			ps["A"].Send2(net.CodeHeartBeat, buf)
			if _, ok := ps["A"].Sync(); !ok {
				c.Fail("dropped", "a correct peer is dropped")
			}
			var got, want []string
			got = append(got, s.n.Peers()[ps["A"].ID.String()].Peers...)
			for x := range known {
				want = append(want, ps[x].ID.String())
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Fail("neighbours", "A's neighbours are %v, it said %v", got, want)
			}
			c.State()
		}
		var b block
		if len(known)%2 == 0 {
			b.s = newSnapshot(s.n.W)
		} else {
			b.a = newAccount(s.n.W)
		}
		c.Op("A announces a block")
		ps["A"].Send2(b.msg(5))
		if _, ok := ps["A"].Sync(); !ok {
			c.Fail("dropped", "a correct peer is dropped")
		}
		told := 0
		for _, x := range names {
			got := strings.Join(news(c, ps[x], x), " ")
			want := fmt.Sprintf("%s/4", b.hash())
			switch {
			case x == "A":
				want = ""
			case known[x] && got != "":
				told++
			case known[x]:
				want = ""
			}
			if got != want {
				c.Fail("relay", "peer %s is told %q instead of %q; neighbours of the sender: %v", x, got, want, known)
			}
		}
		if len(known) > 0 && told != 1 {
			c.Fail("relay-common", "%d of the %d peers the sender is connected to are told instead of one", told, len(known))
		}
		s.delivered()
		c.State()
	}
}

// hashList answers a request for the outline of the ledger above the node's.
func hashList(c *C, p *netkit.Peer, m net.Msg) {
	if m.Code != net.CodeGetHashList {
		return
	}
	req := &net.GetHashHeightList{}
	if err := req.Deserialize(m.Payload); err != nil || len(req.From) == 0 {
		c.Fail("hash-list", "the node's request for an outline cannot be read: %v", err)
	}
	l := &net.HashHeightPointList{}
	add := func(h uint64) {
		l.Points = append(l.Points, &net.HashHeightPoint{HashHeight: ledger.HashHeight{Height: h, Hash: types.DataHash([]byte(fmt.Sprint("tall", h)))}, Size: 1000})
	}
	add(req.From[0].Height + 1)
	for h := (req.From[0].Height/100 + 1) * 100; h <= req.To; h += 100 {
		add(h)
	}
	buf, err := l.Serialize()
	if err != nil {
		panic(err)
	}
	p.Send(net.CodeHashList, m.Id, buf)
}

// syncing: what is announced while the node downloads is delivered when it is done, every time.
func syncing(c *C) {
	s := theSite(c, "full:syncing")
	s.delivered()
	ns := []int{1 + c.Choose(3), 1 + c.Choose(3)} // announcements in each download
	c.Op("%v announcements in two downloads", ns)
	p, q := s.peer(c), s.peer(c)
	c.Defer(func() {
		p.Close()
		q.Close()
		netkit.Until(func() bool { return len(s.n.Peers()) == 0 })
	})
	for r, n := range ns {
		tall, why := s.n.Connect(func(h *net.HandshakeMsg) { h.Height = 1000; h.Head = types.DataHash([]byte("tall")) })
		if tall == nil {
			c.Fail("refused", "the node refuses a correct peer (%d)", why)
		}
		tall2, why := s.n.Connect(func(h *net.HandshakeMsg) { h.Height = 1000; h.Head = types.DataHash([]byte("tall")) })
		if tall2 == nil {
			c.Fail("refused", "the node refuses a correct peer (%d)", why)
		}
		if !netkit.Until(func() bool {
			for _, t := range []*netkit.Peer{tall, tall2} {
				got, ok := t.Sync()
				if !ok {
					c.Fail("dropped", "a correct peer is dropped")
				}
				for _, m := range got {
					hashList(c, t, m)
				}
			}
			return s.n.Net.SyncState() == net.Syncing
		}) {
			c.Fail("sync-state", "the node does not follow a higher peer, its state is %v", s.n.Net.SyncState())
		}
		var want []string
		for i := 0; i < n; i++ {
			for _, b := range []block{{s: newSnapshot(s.n.W)}, {a: newAccount(s.n.W)}} {
				p.Send2(b.msg(0))
				want = append(want, fmt.Sprintf("%s/%d", b.hash(), types.RemoteBroadcast))
			}
		}
		if _, ok := p.Sync(); !ok {
			c.Fail("dropped", "a correct peer is dropped")
		}
		early := s.delivered()
		if s.n.Net.SyncState() == net.Syncing && early != "" {
			c.Fail("early", "delivered while downloading: %s", early)
		}
		tall.Close()
		tall2.Close()
		if !netkit.Until(func() bool { return s.n.Net.SyncState() == net.SyncDone }) {
			c.Fail("sync-state", "no higher peer is left and the state is %v", s.n.Net.SyncState())
		}
		sort.Strings(want)
		var got string
		netkit.Within(25*time.Second, func() bool {
			if x := s.delivered(); x != "" {
				got += " " + x
			}
			return len(strings.Fields(early+got)) >= len(want) || s.n.Net.SyncState() != net.SyncDone
		})
		l := strings.Fields(early + got)
		sort.Strings(l)
		if strings.Join(l, " ") != strings.Join(want, " ") {
			c.Fail("stored", "download %d: announced meanwhile\n%s\ndelivered afterwards\n%s", r+1, strings.Join(want, "\n"), strings.Join(l, "\n"))
		}
		c.State()
	}
}

func main() {
	explore.Main(explore.Suite{Property: "N04", Workers: 16, QuickBudget: 150 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []explore.Scenario {
		depth, d2 := 2, 3
		if tier == "thorough" {
			depth, d2 = 3, 5
		}
		var l []explore.Scenario
		l = append(l, explore.Scenario{Name: "syncing", Bound: "1-3 announcements of each kind in each of two downloads one after the other", Body: syncing, Timeout: 300 * time.Second})
		for _, f := range []string{"full", "cross"} {
			l = append(l, explore.Scenario{Name: f, Bound: fmt.Sprintf("forwarding %s; a new snapshot or account block: every sequence of %d of: the correct block with a time to live of 0, 1, 5 or 32 or a copy wrong in one of four ways, from either of two peers, or the node's own announcement, a third peer listening; black blocks: one step", f, depth), Body: spread(f, depth)})
		}
		l = append(l, explore.Scenario{Name: "neighbours", Bound: fmt.Sprintf("forwarding cross; every sequence of %d reports, whole or change, of a peer about its connections to three (later two) of the four other peers, then its announcement of a block", depth), Body: neighbours(depth)})
		l = append(l, explore.Scenario{Name: "old", Bound: "a block for each height of a ledger of 107 snapshots", Body: old})
		l = append(l, explore.Scenario{Name: "subscriptions", Bound: fmt.Sprintf("every sequence of %d subscriptions and cancellations, a block of each kind after each", d2), Body: subscriptions(d2)})
		return l
	}})
}
