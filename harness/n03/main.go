// Property N03: a node admits exactly the peers it should.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	_net "net"
	"sort"
	"strings"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/explore"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
	"github.com/vitelabs/go-vite/v2/zz_verif/netkit"
)

// ident is a peer identity: a node key and, for producers, a producing key.
type ident struct {
	name      string
	pub, kpub ed25519.PublicKey
	prv, kprv ed25519.PrivateKey
}

func newIdent(name string, n uint64, producer bool) *ident {
	i := &ident{name: name}
	i.pub, i.prv = netkit.Key(n)
	if producer {
		i.kpub, i.kprv = netkit.Key(n + 1000)
	}
	return i
}

var ids = []*ident{
	newIdent("plain1", 501, false),
	newIdent("plain2", 502, false),
	newIdent("plain3", 503, false),
	newIdent("sbp", 504, true),
	newIdent("stranger-with-key", 505, true),
	newIdent("allowed-id", 506, false),
	newIdent("allowed-key", 507, true),
	newIdent("denied-id", 508, false),
	newIdent("denied-key", 509, true),
	newIdent("denied-sbp", 510, true),
	newIdent("sbp2", 511, true),
}

func id(name string) *ident {
	for _, i := range ids {
		if i.name == name {
			return i
		}
	}
	panic(name)
}

type conf struct {
	name        string
	max, ratio  int
	any         bool
	ops         []string
	node        *netkit.Node
	css         *netkit.Css
	inboundOnly int
}

var confs = []*conf{
	{name: "two places", max: 2, ratio: 1, any: true, ops: []string{"plain1", "plain2", "plain3", "sbp", "allowed-id", "denied-id"}},
	{name: "six places, two of them for those who call", max: 6, ratio: 3, any: true, ops: []string{"plain1", "plain2", "plain3", "sbp", "allowed-key", "stranger-with-key"}},
	{name: "closed", max: 6, ratio: 1, any: false, ops: []string{"plain1", "stranger-with-key", "sbp", "allowed-id", "allowed-key", "denied-id", "denied-key", "denied-sbp"}},
}

var world *World

func (f *conf) start() *netkit.Node {
	if f.node == nil {
		if world == nil {
			world, _ = netkit.NewWorld(explore.MkTemp("n03-"), 3, 2)
		}
		w := world
		f.css = &netkit.Css{SBPs: []types.Address{types.PubkeyToAddress(id("sbp").kpub), types.PubkeyToAddress(id("denied-sbp").kpub)}}
		f.node = netkit.Start(w, w.V, f.css, &netkit.Irr{B: w.Chain.GetGenesisSnapshotBlock()}, func(c *config.Net) {
			c.MaxPeers, c.MaxInboundRatio = f.max, f.ratio
			if !f.any {
				c.AccessControl = "producer"
			}
			c.AccessAllowKeys = []string{hex.EncodeToString(id("allowed-id").pub), hex.EncodeToString(id("allowed-key").kpub)}
			c.AccessDenyKeys = []string{hex.EncodeToString(id("denied-id").pub), hex.EncodeToString(id("denied-key").kpub), hex.EncodeToString(id("denied-sbp").pub)}
		})
	}
	return f.node
}

func hello(n *netkit.Node, i *ident) *net.HandshakeMsg {
	h := n.HelloMsg(i.pub, i.prv)
	h.Name = i.name
	if i.kpub != nil {
		h.Key = i.kpub
		h.Token = ed25519.Sign(i.kprv, h.Token)
	}
	return h
}

// checkHello requires that the node introduces itself correctly.
func checkHello(c *C, n *netkit.Node, i *ident, p *netkit.Peer) {
	h := p.Hello
	top, g := n.W.Chain.GetLatestSnapshotBlock(), n.W.Chain.GetGenesisSnapshotBlock()
	if h.ID != n.ID || h.NetID != netkit.NetID || h.Genesis != g.Hash || h.Head != top.Hash || h.Height != top.Height || h.Name != "verif" {
		c.Fail("introduction", "the node introduces itself as %+v", h)
	}
	secret, err := crypto.X25519ComputeSecret(i.prv.ToX25519Sk(), n.Pub.ToX25519Pk())
	if err != nil {
		panic(err)
	}
	t := make([]byte, 8)
	binary.BigEndian.PutUint64(t, uint64(h.Timestamp))
	want := crypto.Hash256(t)
	for k := range want {
		want[k] ^= secret[k]
	}
	if !bytes.Equal(want, h.Token) || len(h.Key) != 0 {
		c.Fail("introduction", "the node does not prove that it owns its id")
	}
}

func connect(c *C, n *netkit.Node, i *ident, from _net.IP, mod func(*net.HandshakeMsg)) (*netkit.Peer, int) {
	return n.ConnectAs(i.pub, i.prv, from, func(h *net.HandshakeMsg) {
		*h = *hello(n, i)
		if mod != nil {
			mod(h)
		}
	})
}

func settle(c *C, n *netkit.Node, want map[string]bool) {
	names := func(m map[string]net.PeerInfo) string {
		var l []string
		for _, p := range m {
			l = append(l, p.Name)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	var l []string
	for k := range want {
		l = append(l, k)
	}
	sort.Strings(l)
	if !netkit.Until(func() bool { return names(n.Peers()) == strings.Join(l, " ") }) {
		c.Fail("peers", "connected: [%s], the node says [%s]", strings.Join(l, " "), names(n.Peers()))
	}
	for _, p := range n.Peers() {
		i := id(p.Name)
		if p.Id != hex.EncodeToString(i.pub) {
			c.Fail("peers", "peer %s has the id %s", p.Name, p.Id)
		}
	}
}

// sequences of correct introductions and departures, against the rules.
func sequences(fi int, depth int) func(c *C) {
	return func(c *C) {
		f := confs[fi]
		n := f.start()
		on := map[string]*netkit.Peer{}
		var order []string
		c.Defer(func() {
			for _, p := range on {
				p.Close()
			}
			netkit.Until(func() bool { return len(n.Peers()) == 0 })
		})
		set := func() map[string]bool {
			m := map[string]bool{}
			for k := range on {
				m[k] = true
			}
			return m
		}
		sbp := map[string]bool{"sbp": true, "denied-sbp": true}
		for step := 0; step < depth; step++ {
			k := c.Choose(len(f.ops) + 1)
			if k == len(f.ops) {
				if len(order) == 0 {
					c.Prune()
				}
				c.Op("%s leaves", order[0])
				on[order[0]].Close()
				delete(on, order[0])
				order = order[1:]
				settle(c, n, set())
				continue
			}
			i := id(f.ops[k])
			count := 0
			for x := range on {
				if !sbp[x] {
					count++
				}
			}
			var want bool
			switch {
			case on[i.name] != nil, strings.HasPrefix(i.name, "denied"):
				want = false
			case strings.HasPrefix(i.name, "allowed"), sbp[i.name]:
				want = true
			default:
				want = f.any && count < f.max && count < f.max/f.ratio
			}
			p, why := connect(c, n, i, nil, nil)
			c.Op("%s: admitted %v", i.name, p != nil)
			if (p != nil) != want {
				c.Fail("admission", "%s: %v are connected, %s is admitted: %v (%d)", f.name, order, i.name, p != nil, why)
			}
			if p != nil {
				checkHello(c, n, i, p)
				on[i.name] = p
				order = append(order, i.name)
			}
			settle(c, n, set())
			for _, x := range n.Peers() {
				if x.Superior != sbp[x.Name] {
					c.Fail("superior", "%s counts as a producer: %v", x.Name, x.Superior)
				}
			}
			c.State()
		}
		for name, p := range on {
			if _, ok := p.Sync(); !ok {
				c.Fail("dropped", "%s was admitted and dropped", name)
			}
		}
	}
}

var big *netkit.Node

// wrong: one introduction that is wrong in one way.
func wrong(c *C) {
	if big == nil {
		w, _ := netkit.NewWorld(explore.MkTemp("n03b-"), 3, 2)
		big = netkit.Start(w, w.V, &netkit.Css{}, &netkit.Irr{B: w.Chain.GetGenesisSnapshotBlock()}, nil)
	}
	n := big
	producer := c.Bool()
	i := &ident{name: "peer"}
	i.pub, i.prv = n.NextKey()
	if producer {
		i.kpub, i.kprv = n.NextKey()
	}
	_, otherPrv := n.NextKey()
	otherPub, _ := n.NextKey()
	kinds := []string{"none", "token", "token bit", "token cut", "token of another", "time", "net", "genesis", "genesis bit", "id", "own id", "key", "no key", "unsigned", "head", "addresses", "name"}
	kind := kinds[c.Choose(len(kinds))]
	want := false
	var mod func(h *net.HandshakeMsg)
	switch kind {
	case "none":
		want = true
	case "token":
		mod = func(h *net.HandshakeMsg) { h.Token = nil }
	case "token bit":
		k := c.Choose(len(hello(n, i).Token) * 8)
		mod = func(h *net.HandshakeMsg) { h.Token[k/8] ^= 1 << uint(k%8) }
	case "token cut":
		k := c.Choose(len(hello(n, i).Token))
		mod = func(h *net.HandshakeMsg) { h.Token = h.Token[:k] }
	case "token of another":
		mod = func(h *net.HandshakeMsg) { h.Token = n.Token(otherPrv, h.Timestamp) }
	case "time":
		k := uint(c.Choose(64))
		mod = func(h *net.HandshakeMsg) { h.Timestamp ^= 1 << k }
	case "net":
		k := uint(c.Choose(64))
		mod = func(h *net.HandshakeMsg) { h.NetID ^= 1 << k }
	case "genesis":
		mod = func(h *net.HandshakeMsg) { h.Genesis = types.Hash{} }
	case "genesis bit":
		k := c.Choose(256)
		mod = func(h *net.HandshakeMsg) { h.Genesis[k/8] ^= 1 << uint(k%8) }
	case "id":
		mod = func(h *net.HandshakeMsg) { copy(h.ID[:], otherPub) }
	case "own id":
		mod = func(h *net.HandshakeMsg) { h.ID = n.ID }
	case "key":
		mod = func(h *net.HandshakeMsg) { h.Key = otherPub }
	case "no key":
		if !producer {
			c.Prune()
		}
		mod = func(h *net.HandshakeMsg) { h.Key = nil }
	case "unsigned":
		if !producer {
			c.Prune()
		}
		mod = func(h *net.HandshakeMsg) { h.Token = n.Token(i.prv, h.Timestamp) }
	case "head":
		want = true
		mod = func(h *net.HandshakeMsg) { h.Height, h.Head = 99, types.DataHash([]byte("x")) }
	case "addresses":
		want = true
		mod = func(h *net.HandshakeMsg) {
			h.FileAddress, h.PublicAddress = []byte{0x10, 127, 0, 0, 1, 0x20, 0x21}, nil
		}
	case "name":
		want = true
		mod = func(h *net.HandshakeMsg) { h.Name = strings.Repeat("n", 300) }
	}
	c.Op("introduction of a producer %v, wrong: %s", producer, kind)
	from := n.SourceIP()
	began := time.Now()
	p, why := connect(c, n, i, from, mod)
	c.State()
	if (p != nil) != want {
		c.Fail("admission", "an introduction (producer %v) with a wrong %s is admitted: %v (%d)", producer, kind, p != nil, why)
	}
	if p == nil {
		if _, is := n.Peers()[hex.EncodeToString(i.pub)]; is {
			c.Fail("peers", "a refused peer is listed")
		}
		// the right one, from the address that is shut out for a minute
		{
			q, _ := connect(c, n, i, from, nil)
			if q != nil && time.Since(began) < 40*time.Second {
				c.Fail("not-banned", "an address that sent an introduction with a wrong %s is admitted right afterwards", kind)
			}
			if q != nil {
				q.Close()
				netkit.Until(func() bool { _, is := n.Peers()[hex.EncodeToString(i.pub)]; return !is })
			}
		}
		// and from another address
		p, why = connect(c, n, i, nil, nil)
		if p == nil {
			c.Fail("locked-out", "after a wrong introduction (%s) in its name the peer itself is refused (%d)", kind, why)
		}
	}
	checkHello(c, n, i, p)
	if _, ok := p.Sync(); !ok {
		c.Fail("dropped", "an admitted peer is dropped")
	}
	p.Close()
}

// files: the file port serves connected peers only.
func files(c *C) {
	f := confs[0]
	n := f.start()
	c.Defer(func() { netkit.Until(func() bool { return len(n.Peers()) == 0 }) })
	i := id("plain1")
	connected := c.Bool()
	p := &netkit.Peer{N: n, Pub: i.pub, Priv: i.prv}
	copy(p.ID[:], i.pub)
	if connected {
		q, why := connect(c, n, i, nil, nil)
		if q == nil {
			c.Fail("admission", "the only peer is refused (%d)", why)
		}
		if _, ok := q.Sync(); !ok {
			c.Fail("dropped", "an admitted peer is dropped")
		}
		defer q.Close()
	}
	_, other := n.NextKey()
	kpub, kprv := n.NextKey()
	kinds := []string{"none", "signed", "token bit", "no token", "token of another", "time", "wrong key", "unsigned"}
	kind := kinds[c.Choose(len(kinds))]
	k := 0
	if kind == "token bit" {
		k = c.Choose(256)
	} else if kind == "time" {
		k = c.Choose(64)
	}
	c.Op("file port, connected %v, wrong: %s", connected, kind)
	_, conn, m := p.FileHello(func(h *vitepb.SyncConnHandshake) {
		switch kind {
		case "signed":
			h.Key, h.Token = kpub, ed25519.Sign(kprv, h.Token)
		case "token bit":
			h.Token[k/8] ^= 1 << uint(k%8)
		case "no token":
			h.Token = nil
		case "token of another":
			h.Token = n.Token(other, h.Timestamp)
		case "time":
			h.Timestamp ^= 1 << uint(k)
		case "wrong key":
			h.Key, h.Token = i.pub, ed25519.Sign(kprv, h.Token)
		case "unsigned":
			h.Key = kpub
		}
	})
	c.State()
	want := connected && (kind == "none" || kind == "signed")
	if (conn != nil) != want {
		c.Fail("file-admission", "the file port admits (connected %v, wrong: %s): %v %v", connected, kind, conn != nil, m)
	}
	if conn != nil {
		conn.Close()
	}
}

func main() {
	explore.Main(explore.Suite{Property: "N03", Workers: 16, QuickBudget: 150 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []explore.Scenario {
		depth := 3
		if tier == "thorough" {
			depth = 5
		}
		var l []explore.Scenario
		for i, f := range confs {
			l = append(l, explore.Scenario{Name: fmt.Sprintf("conf%d", i+1), Bound: fmt.Sprintf("%s: every sequence of %d arrivals (of %d kinds of peers: plain, producer, allowed or denied by id or key) and departures", f.name, depth, len(f.ops)), Body: sequences(i, depth)})
		}
		l = append(l, explore.Scenario{Name: "wrong", Bound: "one introduction, of a plain node or a producer, wrong in one of 17 ways, for bit errors every bit; then the correct one", Body: wrong})
		l = append(l, explore.Scenario{Name: "files", Bound: "one introduction to the file port, of a connected or unconnected peer, correct or wrong in one of 6 ways (every bit of the token and the time)", Body: files})
		return l
	}})
}
