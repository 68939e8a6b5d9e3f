// Package netkit runs a real node network (net.New over the loopback interface, on a real ledger) and
// talks to it as remote peers do.
package netkit

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	_net "net"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	cdb "github.com/vitelabs/go-vite/v2/ledger/consensus/cdb"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/net/vnode"
	"github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

const NetID = 7

// Wait bounds how long an answer of the node is awaited; it only has to exceed what a loaded machine needs.
const Wait = 100 * time.Second

// Css is the consensus the node sees.
type Css struct {
	SBPs []types.Address
	Fn   func(event consensus.ProducersEvent)
}

func (c *Css) SubscribeProducers(gid types.Gid, id string, fn func(event consensus.ProducersEvent)) {
	c.Fn = fn
}
func (c *Css) UnSubscribe(gid types.Gid, id string) {}
func (c *Css) API() consensus.APIReader             { return c }
func (c *Css) ReadVoteMap(t time.Time) ([]*consensus.VoteDetails, *ledger.HashHeight, error) {
	var l []*consensus.VoteDetails
	for _, a := range c.SBPs {
		d := &consensus.VoteDetails{}
		d.CurrentAddr = a
		l = append(l, d)
	}
	return l, nil, nil
}
func (c *Css) ReadSuccessRate(start, end uint64) ([]map[types.Address]*cdb.Content, error) {
	return nil, nil
}
func (c *Css) ReadByIndex(gid types.Gid, index uint64) ([]*consensus.Event, uint64, error) {
	return nil, 0, nil
}

// Irr is the irreversible block the node sees.
type Irr struct{ B *ledger.SnapshotBlock }

func (i *Irr) GetIrreversibleBlock() *ledger.SnapshotBlock { return i.B }

// Node is a running network node.
type Node struct {
	W      *kit.World
	Net    net.Net
	IP     string
	ID     vnode.NodeID
	Pub    ed25519.PublicKey
	Cfg    *config.Net
	mu     sync.Mutex
	nextIP int
	seq    uint64
}

// Log is everything a ledger made by NewWorld consists of, in the order of insertion.
type Log struct {
	Snaps []*ledger.SnapshotBlock  // from height 2
	Abs   [][]*ledger.AccountBlock // what each of them confirms
}

// All are the account blocks of one account.
func (l *Log) All(a types.Address) []*ledger.AccountBlock {
	var r []*ledger.AccountBlock
	for _, x := range l.Abs {
		for _, b := range x {
			if b.AccountAddress == a {
				r = append(r, b)
			}
		}
	}
	return r
}

var nodes int

// Key derives a deterministic key pair.
func Key(n uint64) (ed25519.PublicKey, ed25519.PrivateKey) {
	var d [32]byte
	binary.BigEndian.PutUint64(d[:], n)
	d[31] = 0x77
	pub, priv, err := ed25519.GenerateKeyFromD(d)
	if err != nil {
		panic(err)
	}
	return pub, priv
}

// Start runs a node on the ledger of w. mod changes the configuration.
func Start(w *kit.World, v net.Verifier, css net.Consensus, irr net.IrreversibleReader, mod func(*config.Net)) *Node {
	nodes++
	pub, priv := Key(uint64(os.Getpid())<<16 | uint64(nodes)<<8 | 0xee)
	n := &Node{W: w, Pub: pub}
	n.ID, _ = vnode.Bytes2NodeID(pub)
	pid := os.Getpid()*7 + nodes
	n.IP = fmt.Sprintf("127.%d.%d.%d", 100+(pid>>16)%100, (pid>>8)&255, 1+pid&127)
	cfg := &config.Net{
		Name: "verif", NetID: NetID, ListenInterface: n.IP, Port: 18483, FilePort: 18484,
		DataDir: filepath.Join(w.Dir, fmt.Sprintf("net%d", nodes)), PeerKey: priv.Hex(),
		Discover: false, MaxPeers: 1000, MaxInboundRatio: 1, MinPeers: 0, MaxPendingPeers: 16,
		ForwardStrategy: "full", AccessControl: "any",
	}
	if mod != nil {
		mod(cfg)
	}
	n.Cfg = cfg
	x, err := net.New(cfg, w.Chain, v, css, irr)
	if err != nil {
		panic(err)
	}
	n.Net = x
	if err := x.Start(); err != nil {
		panic(err)
	}
	return n
}

// Peers are the peers the node says it has, by id.
func (n *Node) Peers() map[string]net.PeerInfo {
	m := map[string]net.PeerInfo{}
	for _, p := range n.Net.Info().Peers {
		m[p.Id] = p
	}
	return m
}

// Until waits for a condition that has to become true.
func Until(f func() bool) bool { return Within(Wait, f) }

// Within is Until with a given time.
func Within(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

// SourceIP gives an address no earlier connection of this process came from.
func (n *Node) SourceIP() _net.IP {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.nextIP++
	p := os.Getpid()
	return _net.IPv4(127, byte(1+p%97), byte(n.nextIP>>8), byte(n.nextIP)).To4()
}

// Dial connects to a port of the node from the given address (nil: a fresh one).
func (n *Node) Dial(port int, from _net.IP) (_net.Conn, error) {
	if from == nil {
		from = n.SourceIP()
	}
	d := _net.Dialer{LocalAddr: &_net.TCPAddr{IP: from}, Timeout: Wait}
	return d.Dial("tcp", fmt.Sprintf("%s:%d", n.IP, port))
}

// Peer is one remote peer connected to the node.
type Peer struct {
	N     *Node
	Conn  _net.Conn
	C     net.Codec
	Pub   ed25519.PublicKey
	Priv  ed25519.PrivateKey
	ID    vnode.NodeID
	Hello *net.HandshakeMsg // of the node
	seq   uint32
}

func xor(a, b []byte) []byte {
	x := make([]byte, len(a))
	for i := range a {
		x[i] = a[i] ^ b[i]
	}
	return x
}

// Token is what proves to the node that the peer owns its id.
func (n *Node) Token(priv ed25519.PrivateKey, ts int64) []byte {
	secret, err := crypto.X25519ComputeSecret(priv.ToX25519Sk(), n.Pub.ToX25519Pk())
	if err != nil {
		panic(err)
	}
	t := make([]byte, 8)
	binary.BigEndian.PutUint64(t, uint64(ts))
	return xor(crypto.Hash256(t), secret)
}

// HelloMsg is a correct handshake of the peer with the given key.
func (n *Node) HelloMsg(pub ed25519.PublicKey, priv ed25519.PrivateKey) *net.HandshakeMsg {
	id, _ := vnode.Bytes2NodeID(pub)
	g := n.W.Chain.GetGenesisSnapshotBlock()
	h := &net.HandshakeMsg{NetID: NetID, Name: "peer", ID: id, Timestamp: time.Now().Unix(), Height: g.Height, Head: g.Hash,
		Genesis: g.Hash, FileAddress: []byte{0, 1}, PublicAddress: []byte{0, 2}}
	h.Token = n.Token(priv, h.Timestamp)
	return h
}

// NextKey gives a fresh peer key.
func (n *Node) NextKey() (ed25519.PublicKey, ed25519.PrivateKey) {
	n.mu.Lock()
	n.seq++
	s := n.seq
	n.mu.Unlock()
	return Key(uint64(os.Getpid())<<32 | s)
}

// Connect makes a peer; a nil result means that the node refused, with the reason it gave (-1: none).
func (n *Node) Connect(mod func(*net.HandshakeMsg)) (*Peer, int) {
	pub, priv := n.NextKey()
	return n.ConnectAs(pub, priv, nil, mod)
}

// ConnectAs is Connect with a given key and source address.
func (n *Node) ConnectAs(pub ed25519.PublicKey, priv ed25519.PrivateKey, from _net.IP, mod func(*net.HandshakeMsg)) (*Peer, int) {
	conn, err := n.Dial(n.Cfg.Port, from)
	if err != nil {
		panic(fmt.Sprintf("dial: %v", err))
	}
	id, _ := vnode.Bytes2NodeID(pub)
	p := &Peer{N: n, Conn: conn, C: net.NewTransport(conn, 100, Wait, Wait), Pub: pub, Priv: priv, ID: id}
	h := n.HelloMsg(pub, priv)
	if mod != nil {
		mod(h)
	}
	buf, err := h.Serialize()
	if err != nil {
		panic(err)
	}
	if err := p.C.WriteMsg(net.Msg{Code: net.CodeHandshake, Id: 9, Payload: buf}); err != nil {
		conn.Close()
		return nil, -1
	}
	m, err := p.C.ReadMsg()
	if err != nil || m.Code != net.CodeHandshake {
		conn.Close()
		if err == nil && m.Code == net.CodeDisconnect && len(m.Payload) > 0 {
			return nil, int(m.Payload[0])
		}
		return nil, -1
	}
	p.Hello = &net.HandshakeMsg{}
	if err := p.Hello.Deserialize(m.Payload); err != nil {
		panic(err)
	}
	return p, 0
}

func (p *Peer) Close() { p.Conn.Close() }

// Send writes one message.
func (p *Peer) Send(code byte, id uint32, payload []byte) error {
	return p.C.WriteMsg(net.Msg{Code: code, Id: id, Payload: payload})
}

// Sync waits until the node has dealt with everything sent before and returns the messages it sent
// meanwhile; ok is false when the node has closed the connection.
func (p *Peer) Sync() (got []net.Msg, ok bool) {
	p.seq++
	id := 0x70000000 + p.seq
	g := p.N.W.Chain.GetGenesisSnapshotBlock()
	req := &net.GetSnapshotBlocks{From: ledger.HashHeight{Hash: g.Hash, Height: g.Height}, Count: 1}
	buf, err := req.Serialize()
	if err != nil {
		panic(err)
	}
	p.Send(net.CodeGetSnapshotBlocks, id, buf)
	for {
		m, err := p.C.ReadMsg()
		if err != nil {
			if ne, is := err.(_net.Error); is && ne.Timeout() {
				panic("the node does not answer")
			}
			return got, false
		}
		if m.Code == net.CodeHeartBeat {
			continue
		}
		if m.Id == id && m.Code == net.CodeSnapshotBlocks {
			return got, true
		}
		got = append(got, m)
		if m.Code == net.CodeDisconnect {
			return got, false
		}
	}
}

// FileHello opens an authenticated connection to the file port for an already connected peer.
func (p *Peer) FileHello(mod func(*vitepb.SyncConnHandshake)) (net.Codec, _net.Conn, *net.Msg) {
	conn, err := p.N.Dial(p.N.Cfg.FilePort, nil)
	if err != nil {
		panic(err)
	}
	c := net.NewTransport(conn, 100, Wait, Wait)
	h := &vitepb.SyncConnHandshake{ID: p.ID.Bytes(), Timestamp: time.Now().Unix()}
	h.Token = p.N.Token(p.Priv, h.Timestamp)
	if mod != nil {
		mod(h)
	}
	buf, err := proto.Marshal(h)
	if err != nil {
		panic(err)
	}
	if err := c.WriteMsg(net.Msg{Code: net.CodeSyncHandshake, Payload: buf}); err != nil {
		conn.Close()
		return nil, nil, nil
	}
	m, err := c.ReadMsg()
	if err != nil {
		conn.Close()
		return nil, nil, nil
	}
	if m.Code != net.CodeSyncHandshakeOK {
		conn.Close()
		return nil, nil, &m
	}
	return c, conn, &m
}

// Allocated is the number of bytes ever allocated by this process.
func Allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// JSON renders a value.
func JSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// StartWorld makes a ledger with the given number of snapshots after the genesis; they confirm the given
// number of blocks of user 0 and some of user 1; it runs a node on it.
func StartWorld(dir string, snapshots, blocks int, mod func(*config.Net)) *Node {
	w, _ := NewWorld(dir, snapshots, blocks)
	return Start(w, w.V, &Css{}, &Irr{w.Chain.GetGenesisSnapshotBlock()}, mod)
}

// NewWorld is the ledger of StartWorld.
func NewWorld(dir string, snapshots, blocks int) (*kit.World, *Log) {
	w, err := kit.Open(kit.Options{Dir: dir})
	if err != nil {
		panic(err)
	}
	l := &Log{}
	done := 0
	for s := 1; s <= snapshots; s++ {
		var abs []*ledger.AccountBlock
		for ; done < blocks*s/snapshots; done++ {
			b, err := w.Send(kit.Users[0], kit.Users[1].Addr, ledger.ViteTokenId, big.NewInt(int64(done+1)), nil)
			if err != nil {
				panic(err)
			}
			abs = append(abs, b)
			if done%5 == 0 {
				r, err := w.Receive(b, kit.Users[1])
				if err != nil {
					panic(err)
				}
				abs = append(abs, r)
			}
		}
		b, err := w.Snapshot()
		if err != nil {
			panic(err)
		}
		l.Snaps = append(l.Snaps, b)
		l.Abs = append(l.Abs, abs)
	}
	return w, l
}

// Send2 is Send with number 0.
func (p *Peer) Send2(code byte, payload []byte) error { return p.Send(code, 0, payload) }
