// Property N01: nothing a remote can send stops a node or makes it allocate without bound.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	_net "net"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/snappy"

	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/explore"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
	"github.com/vitelabs/go-vite/v2/zz_verif/netkit"
)

var node *netkit.Node

func theNode() *netkit.Node {
	if node == nil {
		node = netkit.StartWorld(explore.MkTemp("n01-"), 8, 6, nil)
	}
	return node
}

// ---- messages ----

type message struct {
	name    string
	code    byte
	payload []byte
}

type ser interface{ Serialize() ([]byte, error) }

func enc(s ser) []byte {
	b, err := s.Serialize()
	if err != nil {
		panic(err)
	}
	return b
}

func pb(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func messages(n *netkit.Node) []message {
	c := n.W.Chain
	g := c.GetGenesisSnapshotBlock()
	top := c.GetLatestSnapshotBlock()
	low, err := c.GetSnapshotBlockByHeight(3)
	if err != nil || low == nil {
		panic("no snapshot 3")
	}
	ab, err := c.GetLatestAccountBlock(Users[0].Addr)
	if err != nil || ab == nil {
		panic("no account block")
	}
	other := *ab
	other.Height++
	other.PrevHash = ab.Hash
	other.Hash = other.ComputeHash()
	next := n.W.NextSnapshot(nil, 0)
	hh := func(b *ledger.SnapshotBlock) ledger.HashHeight {
		return ledger.HashHeight{Hash: b.Hash, Height: b.Height}
	}
	p1, p2 := hh(low), hh(g)
	l := []message{
		{"disconnect", net.CodeDisconnect, []byte{5}},
		{"handshake", net.CodeHandshake, enc(n.HelloMsg(netkit.Key(1)))},
		{"control", net.CodeControlFlow, []byte{1, 2}},
		{"heartbeat", net.CodeHeartBeat, pb(&vitepb.State{Head: top.Hash.Bytes(), Height: top.Height, Patch: true, Timestamp: 77,
			Peers: []*vitepb.State_Peer{{ID: g.Hash.Bytes(), Status: vitepb.State_Connected}, {ID: top.Hash.Bytes(), Status: vitepb.State_Disconnected}}})},
		{"gethashlist", net.CodeGetHashList, enc(&net.GetHashHeightList{From: []*ledger.HashHeight{&p1, &p2}, Step: 3, To: 6})},
		{"hashlist", net.CodeHashList, enc(&net.HashHeightPointList{Points: []*net.HashHeightPoint{{HashHeight: p2, Size: 5}, {HashHeight: p1, Size: 9}}})},
		{"getsnapshots", net.CodeGetSnapshotBlocks, enc(&net.GetSnapshotBlocks{From: p1, Count: 2, Forward: true})},
		{"getsnapshots-back", net.CodeGetSnapshotBlocks, enc(&net.GetSnapshotBlocks{From: ledger.HashHeight{Height: 4}, Count: 2})},
		{"snapshots", net.CodeSnapshotBlocks, enc(&net.SnapshotBlocks{Blocks: []*ledger.SnapshotBlock{low, next}})},
		{"getaccounts", net.CodeGetAccountBlocks, enc(&net.GetAccountBlocks{Address: Users[0].Addr, From: ledger.HashHeight{Height: 2}, Count: 2, Forward: true})},
		{"getaccounts-back", net.CodeGetAccountBlocks, enc(&net.GetAccountBlocks{From: ledger.HashHeight{Hash: ab.Hash}, Count: 2})},
		{"accounts", net.CodeAccountBlocks, enc(&net.AccountBlocks{Blocks: []*ledger.AccountBlock{ab, &other}})},
		{"newsnapshot", net.CodeNewSnapshotBlock, enc(&net.NewSnapshotBlock{Block: next, TTL: 3})},
		{"newaccount", net.CodeNewAccountBlock, enc(&net.NewAccountBlock{Block: &other, TTL: 3})},
		{"exception", net.CodeException, []byte{1}},
		{"trace", net.CodeTrace, []byte{1, 2, 3}},
	}
	return l
}

func fileMessages(n *netkit.Node, p *netkit.Peer) []message {
	c := n.W.Chain
	g := c.GetGenesisSnapshotBlock()
	b, err := c.GetSnapshotBlockByHeight(4)
	if err != nil || b == nil {
		panic("no snapshot 4")
	}
	ts := time.Now().Unix()
	return []message{
		{"filehello", net.CodeSyncHandshake, pb(&vitepb.SyncConnHandshake{ID: p.ID.Bytes(), Timestamp: ts, Token: n.Token(p.Priv, ts)})},
		{"chunkrequest", net.CodeSyncRequest, pb(&vitepb.ChunkRequest{From: 2, To: 4, PrevHash: g.Hash.Bytes(), EndHash: b.Hash.Bytes()})},
		{"chunkresponse", net.CodeSyncReady, pb(&vitepb.ChunkResponse{From: 2, To: 4, Size: 9, PrevHash: g.Hash.Bytes(), EndHash: b.Hash.Bytes()})},
		{"disconnect", net.CodeDisconnect, []byte{5}},
	}
}

// ---- mutations of a payload ----

var numbers = []uint64{0, 1, 2, 3, 99, 100, 101, 1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 101, 1<<64 - 2, 1<<64 - 1}

type field struct {
	num, typ int
	start    int // of the tag
	val      int // of the value
	end      int
}

func parse(b []byte) ([]field, bool) {
	var l []field
	for i := 0; i < len(b); {
		t, k := binary.Uvarint(b[i:])
		if k <= 0 || t>>3 == 0 || t>>3 > 60 {
			return nil, false
		}
		f := field{num: int(t >> 3), typ: int(t & 7), start: i, val: i + k}
		switch f.typ {
		case 0:
			_, k2 := binary.Uvarint(b[f.val:])
			if k2 <= 0 {
				return nil, false
			}
			f.end = f.val + k2
		case 2:
			n, k2 := binary.Uvarint(b[f.val:])
			if k2 <= 0 || n > uint64(len(b)) || f.val+k2+int(n) > len(b) {
				return nil, false
			}
			f.val += k2
			f.end = f.val + int(n)
		default:
			return nil, false
		}
		l = append(l, f)
		i = f.end
	}
	return l, true
}

func varint(n uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, n)]
}

func cat(l ...[]byte) []byte {
	var b []byte
	for _, x := range l {
		b = append(b, x...)
	}
	return b
}

// fieldMutations gives every change of one field: another number, another length, absent, twice.
func fieldMutations(b []byte, depth int) [][]byte {
	fs, ok := parse(b)
	if !ok {
		return nil
	}
	var out [][]byte
	put := func(f field, nb []byte) {
		if nb == nil {
			out = append(out, cat(b[:f.start], b[f.end:]))
			return
		}
		out = append(out, cat(b[:f.start], nb, b[f.end:]))
	}
	seen := map[int]bool{}
	for _, f := range fs {
		put(f, nil)
		put(f, cat(b[f.start:f.end], b[f.start:f.end]))
		seen[f.num] = true
		switch f.typ {
		case 0:
			for _, n := range numbers {
				put(f, cat(varint(uint64(f.num)<<3), varint(n)))
			}
			put(f, cat(varint(uint64(f.num)<<3|2), varint(0)))
		case 2:
			v := b[f.val:f.end]
			for _, k := range []int{0, 1, 2, 15, 16, 20, 21, 31, 32, 33, 63, 64, 65, 200} {
				x := make([]byte, k)
				copy(x, v)
				put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(k)), x))
			}
			if len(v) > 0 {
				x := append([]byte{}, v[:len(v)-1]...)
				put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(len(x))), x))
				x = append(append([]byte{}, v...), 1)
				put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(len(x))), x))
				x = append([]byte{}, v...)
				for i := range x {
					x[i] = 0xff
				}
				put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(len(x))), x))
				put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(len(x))), make([]byte, len(x))))
				if depth > 0 {
					for _, y := range fieldMutations(v, depth-1) {
						put(f, cat(varint(uint64(f.num)<<3|2), varint(uint64(len(y))), y))
					}
				}
			}
			put(f, cat(varint(uint64(f.num)<<3), varint(7)))
			put(f, cat(varint(uint64(f.num)<<3|2), varint(1<<63)))
			put(f, cat(varint(uint64(f.num)<<3|2), varint(1<<31)))
		}
	}
	for num := 1; num <= 24; num++ { // fields the valid message does not have
		if !seen[num] {
			for _, n := range numbers {
				out = append(out, cat(b, varint(uint64(num)<<3), varint(n)))
			}
			for _, k := range []int{0, 1, 31, 32, 64} {
				out = append(out, cat(b, varint(uint64(num)<<3|2), varint(uint64(k)), make([]byte, k)))
			}
		}
	}
	return out
}

func truncations(b []byte) [][]byte {
	var l [][]byte
	for i := 0; i < len(b); i++ {
		l = append(l, b[:i])
	}
	return append(l, append(append([]byte{}, b...), 0), append(append([]byte{}, b...), 0xff))
}

func substitutions(b []byte, k int) [][]byte {
	var l [][]byte
	for i := range b {
		x := append([]byte{}, b...)
		switch k {
		case 0:
			x[i] = 0
		case 1:
			x[i] = 0xff
		case 2:
			x[i] ^= 1
		case 3:
			x[i] ^= 0x80
		case 4:
			x[i] = 0x7f
		case 5:
			x[i]++
		case 6:
			x[i] ^= 0x10
		}
		l = append(l, x)
	}
	return l
}

// ---- talking ----

// frame is the encoding of a message, with the given payload length and compression.
func frame(code byte, id uint32, payload []byte, compressed bool) []byte {
	n := len(payload)
	meta := byte(3<<6 | 3<<4)
	if compressed {
		meta |= 8
	}
	h := []byte{meta, code, byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), byte(n >> 16), byte(n >> 8), byte(n)}
	return cat(h, payload)
}

// finish ends the sending half of a connection and waits until the node closes its half.
func finish(c *C, conn _net.Conn, what string) {
	conn.(*_net.TCPConn).CloseWrite()
	conn.SetReadDeadline(time.Now().Add(netkit.Wait))
	_, err := io.Copy(io.Discard, conn)
	if ne, is := err.(_net.Error); is && ne.Timeout() {
		c.Fail("stuck", "the node keeps a connection open that its peer has ended: %s", what)
	}
	conn.Close()
}

// alive requires that the node serves a well behaved peer.
func alive(c *C, n *netkit.Node, before uint64, sent, max int, what string) {
	if a := netkit.Allocated() - before; a > uint64(sent)*(8<<20)+(100<<20) {
		c.Fail("memory", "the node allocated %d MB while it dealt with %d small messages: %s", a>>20, sent, what)
	}
	p, why := n.Connect(nil)
	if p == nil {
		c.Fail("refused", "the node refuses a correct peer (%d) after %s", why, what)
	}
	defer p.Close()
	if _, ok := p.Sync(); !ok {
		c.Fail("closed", "the node ends the connection of a correct peer after %s", what)
	}
}

const batch = 24

// each runs f for all i in parallel.
func each(n int, f func(i int)) {
	var wg sync.WaitGroup
	var once sync.Once
	var bad interface{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					once.Do(func() { bad = r })
				}
			}()
			f(i)
		}(i)
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

func pick(c *C, l [][]byte, what string) ([][]byte, string) {
	if len(l) == 0 {
		l = [][]byte{nil}
	}
	k := c.Choose((len(l) + batch - 1) / batch)
	lo, hi := k*batch, (k+1)*batch
	if hi > len(l) {
		hi = len(l)
	}
	c.Op("%s[%d:%d]", what, lo, hi)
	return l[lo:hi], fmt.Sprintf("%s[%d:%d]", what, lo, hi)
}

// toPeer sends each payload as an authenticated peer of its own.
func toPeer(c *C, n *netkit.Node, code byte, l [][]byte, what string) {
	before := netkit.Allocated()
	each(len(l), func(i int) {
		p, why := n.Connect(nil)
		if p == nil {
			c.Fail("refused", "the node refuses a correct peer (%d) before %s", why, what)
		}
		p.Conn.Write(frame(code, uint32(i), l[i], false))
		finish(c, p.Conn, what)
	})
	c.AddTransitions(len(l))
	c.State()
	alive(c, n, before, len(l), 0, what)
}

// raw sends bytes to a port without any introduction.
func raw(c *C, n *netkit.Node, port int, l [][]byte, what string) {
	before := netkit.Allocated()
	each(len(l), func(i int) {
		conn, err := n.Dial(port, nil)
		if err != nil {
			c.Fail("dial", "the node does not accept a connection: %v", err)
		}
		conn.Write(l[i])
		finish(c, conn, what)
	})
	c.AddTransitions(len(l))
	c.State()
	alive(c, n, before, len(l), 0, what)
}

func mutations(c *C, b []byte, name string) ([][]byte, string) {
	kinds := 4
	if c.Tier == "thorough" {
		kinds = 9
	}
	switch k := c.Choose(kinds); k {
	case 0:
		return pick(c, fieldMutations(b, 3), name+" with a changed field")
	case 1:
		return pick(c, truncations(b), name+" cut")
	default:
		return pick(c, substitutions(b, k-2), fmt.Sprintf("%s with a byte changed (%d)", name, k-2))
	}
}

func peerMessages(c *C) {
	n := theNode()
	ms := messages(n)
	m := ms[c.Choose(len(ms))]
	l, what := mutations(c, m.payload, m.name)
	toPeer(c, n, m.code, l, what)
}

func peerCodes(c *C) {
	n := theNode()
	ms := messages(n)
	k := c.Choose(len(ms) + 1)
	name, payload := "nothing", []byte(nil)
	if k < len(ms) {
		name, payload = ms[k].name, ms[k].payload
	}
	from := c.Choose(16) * 16
	c.Op("codes %d.. with the payload of %s", from, name)
	before := netkit.Allocated()
	each(16, func(i int) {
		p, why := n.Connect(nil)
		if p == nil {
			c.Fail("refused", "the node refuses a correct peer (%d)", why)
		}
		p.Conn.Write(frame(byte(from+i), 5, payload, false))
		finish(c, p.Conn, name)
	})
	c.AddTransitions(16)
	c.State()
	alive(c, n, before, 16, 0, fmt.Sprintf("codes %d.. with the payload of %s", from, name))
}

func strangerHello(c *C) {
	n := theNode()
	pub, priv := n.NextKey()
	h := n.HelloMsg(pub, priv)
	if c.Bool() { // as a producer
		kpub, kpriv := n.NextKey()
		h.Key = kpub
		h.Token = ed25519.Sign(kpriv, h.Token)
		h.FileAddress = []byte{0x10, 1, 2, 3, 4, 0x20, 0x21}
		h.PublicAddress = []byte{0x10, 1, 2, 3, 4, 0x20, 0x21}
	}
	l, what := mutations(c, enc(h), "hello")
	fr := make([][]byte, len(l))
	for i := range l {
		fr[i] = frame(net.CodeHandshake, 7, l[i], false)
	}
	raw(c, n, n.Cfg.Port, fr, what)
}

// frames: every head a message can have, whole or cut, and every kind of compressed payload.
func frames(c *C) {
	n := theNode()
	auth := c.Choose(3) // stranger, peer, file port
	var l [][]byte
	switch c.Choose(3) {
	case 0:
		var fr [][]byte
		for meta := 0; meta < 256; meta++ {
			for _, tail := range [][]byte{nil, {27}, {27, 1}, {27, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {2, 0, 0, 0, 0, 0, 0, 0, 0, 0}} {
				fr = append(fr, cat([]byte{byte(meta)}, tail))
			}
		}
		l, _ = pick(c, fr, "head")
	case 1:
		var fr [][]byte
		for _, n := range []uint64{0, 1, 1 << 16, 1 << 24, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40} {
			for _, code := range []byte{net.CodeHandshake, net.CodeGetSnapshotBlocks, net.CodeSyncHandshake} {
				fr = append(fr, frame(code, 1, cat(varint(n), []byte{0, 0}), true))
			}
		}
		k := c.Choose(len(fr))
		c.Op("compressed %d", k)
		l = fr[k : k+1]
	case 2:
		b := snappy.Encode(nil, []byte(strings.Repeat("abcdefgh", 20)))
		var fr [][]byte
		for _, x := range append(truncations(b), append(substitutions(b, 1), substitutions(b, 0)...)...) {
			fr = append(fr, frame(net.CodeHandshake, 1, x, true))
		}
		l, _ = pick(c, fr, "compressed payload")
	}
	before := netkit.Allocated()
	what := "malformed frames"
	each(len(l), func(i int) {
		var conn _net.Conn
		switch auth {
		case 0, 2:
			port := n.Cfg.Port
			if auth == 2 {
				port = n.Cfg.FilePort
			}
			x, err := n.Dial(port, nil)
			if err != nil {
				c.Fail("dial", "the node does not accept a connection: %v", err)
			}
			conn = x
		case 1:
			p, why := n.Connect(nil)
			if p == nil {
				c.Fail("refused", "the node refuses a correct peer (%d)", why)
			}
			conn = p.Conn
		}
		conn.Write(l[i])
		finish(c, conn, what)
	})
	c.AddTransitions(len(l))
	c.State()
	c.Op("sent as %d", auth)
	alive(c, n, before, len(l), 0, what)
}

// filePort sends to the file port, as a stranger, or after a correct introduction.
func filePort(c *C) {
	n := theNode()
	p, why := n.Connect(nil)
	if p == nil {
		c.Fail("refused", "the node refuses a correct peer (%d)", why)
	}
	defer p.Close()
	if _, ok := p.Sync(); !ok {
		c.Fail("closed", "the node ends the connection of a correct peer")
	}
	ms := fileMessages(n, p)
	if c.Bool() {
		m := ms[c.Choose(len(ms))]
		if m.name == "filehello" && c.Bool() {
			kpub, kpriv := n.NextKey()
			ts := time.Now().Unix()
			m.payload = pb(&vitepb.SyncConnHandshake{ID: p.ID.Bytes(), Timestamp: ts, Key: kpub, Token: ed25519.Sign(kpriv, n.Token(p.Priv, ts))})
		}
		l, what := mutations(c, m.payload, "file port: "+m.name)
		fr := make([][]byte, len(l))
		for i := range l {
			fr[i] = frame(m.code, 7, l[i], false)
		}
		raw(c, n, n.Cfg.FilePort, fr, what)
		return
	}
	m := ms[c.Choose(len(ms))]
	l, what := mutations(c, m.payload, "file port, introduced: "+m.name)
	before := netkit.Allocated()
	each(len(l), func(i int) {
		_, conn, m2 := p.FileHello(nil)
		if conn == nil {
			c.Fail("refused", "the file port refuses a correct peer: %v", m2)
		}
		conn.Write(frame(m.code, 9, l[i], false))
		finish(c, conn, what)
	})
	c.AddTransitions(len(l))
	c.State()
	alive(c, n, before, len(l), 0, what)
}

func main() {
	explore.Main(explore.Suite{Property: "N01", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []explore.Scenario {
		return []explore.Scenario{
			{Name: "stranger-hello", Bound: "a connection from an unknown remote that sends one introduction: a correct one (of a plain node or of a producer) with every single field removed, doubled, given every boundary number or length, or every cut, or every byte replaced (2 ways; 7 in the thorough tier)", Body: strangerHello},
			{Name: "frames", Bound: "every one of the 256 message heads, with and without what it announces, every announced decompressed length, every cut and byte change of a compressed payload; to the peer port before and after the introduction and to the file port", Body: frames},
			{Name: "peer-messages", Bound: "each of the 16 messages a peer can send, with every single field (nested ones too) removed, doubled, given every boundary number or length, every cut, every byte replaced (2 ways; 7 in the thorough tier)", Body: peerMessages},
			{Name: "peer-codes", Bound: "each of the 256 message codes with no payload and with the payload of each of the 16 messages", Body: peerCodes},
			{Name: "file-port", Bound: "the file port before and after the introduction: each of its messages with every single field change, cut and byte change", Body: filePort},
		}
	}})
}
