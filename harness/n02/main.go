// Property N02: a node answers what its peers ask for with what its ledger holds.
package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/net"
	"github.com/vitelabs/go-vite/v2/zz_verif/explore"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
	"github.com/vitelabs/go-vite/v2/zz_verif/netkit"
)

const (
	snapshots = 231
	blocks    = 222
)

var (
	node   *netkit.Node
	lg     *netkit.Log
	snaps  []*ledger.SnapshotBlock // by height-1
	client *World                  // an empty ledger that keeps what is downloaded
)

func theNode() *netkit.Node {
	if node == nil {
		w, l := netkit.NewWorld(explore.MkTemp("n02-"), snapshots, blocks)
		lg = l
		snaps = append([]*ledger.SnapshotBlock{w.Chain.GetGenesisSnapshotBlock()}, l.Snaps...)
		node = netkit.Start(w, w.V, &netkit.Css{}, &netkit.Irr{B: w.Chain.GetGenesisSnapshotBlock()}, nil)
	}
	return node
}

type ser interface{ Serialize() ([]byte, error) }

func enc(s ser) []byte {
	b, err := s.Serialize()
	if err != nil {
		panic(err)
	}
	return b
}

type reply struct {
	sbs    []*ledger.SnapshotBlock
	abs    []*ledger.AccountBlock
	points []*net.HashHeightPoint
	lists  int
	exc    int
}

// ask sends the requests (identified by their index+1) and collects what comes back for each.
func ask(c *C, code byte, reqs [][]byte) []reply {
	n := theNode()
	p, why := n.Connect(nil)
	if p == nil {
		c.Fail("refused", "the node refuses a correct peer (%d)", why)
	}
	defer p.Close()
	out := make([]reply, len(reqs))
	const group = 10
	for lo := 0; lo < len(reqs); lo += group {
		hi := lo + group
		if hi > len(reqs) {
			hi = len(reqs)
		}
		for i := lo; i < hi; i++ {
			if err := p.Send(code, uint32(i+1), reqs[i]); err != nil {
				c.Fail("closed", "the node ended the connection after a correct request: %v", err)
			}
		}
		got, ok := p.Sync()
		if !ok {
			c.Fail("closed", "the node ended the connection after a correct request")
		}
		for _, m := range got {
			if int(m.Id) < lo+1 || int(m.Id) > hi {
				c.Fail("unasked", "an answer (code %d) with number %d to the requests %d-%d", m.Code, m.Id, lo+1, hi)
			}
			r := &out[m.Id-1]
			if r.exc > 0 {
				c.Fail("after-exception", "code %d follows a refusal of the same request", m.Code)
			}
			switch m.Code {
			case net.CodeSnapshotBlocks:
				x := &net.SnapshotBlocks{}
				if err := x.Deserialize(m.Payload); err != nil {
					c.Fail("decode", "%v", err)
				}
				r.sbs = append(r.sbs, x.Blocks...)
			case net.CodeAccountBlocks:
				x := &net.AccountBlocks{}
				if err := x.Deserialize(m.Payload); err != nil {
					c.Fail("decode", "%v", err)
				}
				r.abs = append(r.abs, x.Blocks...)
			case net.CodeHashList:
				x := &net.HashHeightPointList{}
				if err := x.Deserialize(m.Payload); err != nil {
					c.Fail("decode", "%v", err)
				}
				r.points = append(r.points, x.Points...)
				r.lists++
			case net.CodeException:
				r.exc++
			default:
				c.Fail("unasked", "code %d in answer to %d", m.Code, code)
			}
		}
	}
	c.AddTransitions(len(reqs))
	c.State()
	return out
}

var heights = []uint64{1, 2, 3, 50, 99, 100, 101, 102, 131, 132, 133, 150, 199, 200, 201, 202, 221, 222, 223, 230, 231, 232, 233, 500}
var counts = []uint64{1, 2, 3, 50, 99, 100, 101, 102, 131, 132, 133, 199, 200, 201, 202, 203, 221, 222, 223, 230, 231, 232, 233, 300, 100000}

func unknown(i uint64) types.Hash { return types.DataHash([]byte(fmt.Sprint("unknown", i))) }

func sbText(l []*ledger.SnapshotBlock) string {
	var s []string
	for _, b := range l {
		s = append(s, SbText(b))
	}
	return strings.Join(s, "\n")
}

func abText(l []*ledger.AccountBlock, sorted bool) string {
	var s []string
	for _, b := range l {
		s = append(s, fmt.Sprintf("%06d %s", b.Height, BlockText(b)))
	}
	if sorted {
		sort.Strings(s)
	}
	return strings.Join(s, "\n")
}

func brief(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func bound(h, count uint64, forward bool) (lo, hi uint64) {
	if forward {
		return h, h + count - 1
	}
	if count >= h {
		return 1, h
	}
	return h - count + 1, h
}

func snapshotBlocks(c *C) {
	theNode()
	h := heights[c.Choose(len(heights))]
	byHash, forward := c.Bool(), c.Bool()
	c.Op("snapshot blocks from %d by hash %v forward %v", h, byHash, forward)
	from := ledger.HashHeight{Height: h}
	top := uint64(len(snaps))
	if byHash {
		from = ledger.HashHeight{Hash: unknown(h), Height: 5}
		if h <= top {
			from.Hash = snaps[h-1].Hash
		}
	}
	var reqs [][]byte
	for _, n := range counts {
		reqs = append(reqs, enc(&net.GetSnapshotBlocks{From: from, Count: n, Forward: forward}))
	}
	for i, r := range ask(c, net.CodeGetSnapshotBlocks, reqs) {
		n := counts[i]
		if r.abs != nil || r.lists > 0 {
			c.Fail("kind", "snapshot blocks were asked for and something else was sent")
		}
		if h > top {
			if len(r.sbs) > 0 || r.exc != 1 {
				c.Fail("missing", "blocks from %d are not there (of %d): %d blocks, %d refusals", h, top, len(r.sbs), r.exc)
			}
			continue
		}
		lo, hi := bound(h, n, forward)
		if hi > top {
			hi = top
		} else if r.exc > 0 {
			c.Fail("refused", "the blocks %d-%d are there (of %d) and the node says they are not", lo, hi, top)
		}
		if got, want := sbText(r.sbs), sbText(snaps[lo-1:hi]); got != want {
			c.Fail("snapshots", "from %d, %d blocks, forward %v: %d blocks came\n%s\ninstead of %d\n%s", h, n, forward, len(r.sbs), brief(got), hi-lo+1, brief(want))
		}
	}
}

func accountBlocks(c *C) {
	n := theNode()
	who := Users[c.Choose(2)]
	all := lg.All(who.Addr)
	if g, err := n.W.Chain.GetAccountBlockByHeight(who.Addr, 1); err != nil || g == nil {
		c.Fail("first", "no first block: %v", err)
	} else if len(all) == 0 || g.Hash != all[0].Hash {
		all = append([]*ledger.AccountBlock{g}, all...)
	}
	top := uint64(len(all))
	hs := append([]uint64{top, top + 1}, heights...)
	h := hs[c.Choose(len(hs))]
	byHash, forward := c.Bool(), c.Bool()
	c.Op("account blocks of %s from %d by hash %v forward %v", who.Addr, h, byHash, forward)
	req := net.GetAccountBlocks{Address: who.Addr, From: ledger.HashHeight{Height: h}, Forward: forward}
	if byHash {
		req.From = ledger.HashHeight{Hash: unknown(h), Height: 5}
		if h <= top {
			req.From.Hash = all[h-1].Hash
		}
		if c.Bool() {
			req.Address = types.Address{}
		}
	}
	var reqs [][]byte
	for _, k := range counts {
		x := req
		x.Count = k
		reqs = append(reqs, enc(&x))
	}
	for i, r := range ask(c, net.CodeGetAccountBlocks, reqs) {
		k := counts[i]
		if r.sbs != nil || r.lists > 0 {
			c.Fail("kind", "account blocks were asked for and something else was sent")
		}
		if h > top {
			if len(r.abs) > 0 || r.exc != 1 {
				c.Fail("missing", "blocks from %d are not there (of %d): %d blocks, %d refusals", h, top, len(r.abs), r.exc)
			}
			continue
		}
		lo, hi := bound(h, k, forward)
		if hi > top {
			// what is missing may be refused, what comes is right
			for _, b := range r.abs {
				if b.Height < lo || b.Height > top || BlockText(b) != BlockText(all[b.Height-1]) {
					c.Fail("accounts", "a block that was not asked for: %s", BlockText(b))
				}
			}
			if r.exc == 0 && len(r.abs) == 0 {
				c.Fail("silent", "no answer for %d-%d of %d", lo, hi, top)
			}
			continue
		}
		if r.exc > 0 {
			c.Fail("refused", "the blocks %d-%d are there (of %d) and the node says they are not", lo, hi, top)
		}
		if got, want := abText(r.abs, true), abText(all[lo-1:hi], true); got != want {
			c.Fail("accounts", "from %d, %d blocks, forward %v: %d blocks came\n%s\ninstead of %d\n%s", h, k, forward, len(r.abs), brief(got), hi-lo+1, brief(want))
		}
	}
}

func hashLists(c *C) {
	n := theNode()
	top := uint64(len(snaps))
	h := heights[c.Choose(len(heights))]
	shape := c.Choose(4) // known; a wrong one first; wrong only; wrong, then missing
	at := func(h uint64, right bool) *ledger.HashHeight {
		if right && h <= top {
			return &ledger.HashHeight{Height: h, Hash: snaps[h-1].Hash}
		}
		return &ledger.HashHeight{Height: h, Hash: unknown(h)}
	}
	var from []*ledger.HashHeight
	switch shape {
	case 0:
		from = []*ledger.HashHeight{at(h, true)}
	case 1:
		from = []*ledger.HashHeight{at(h+3, false), at(h, true), at(1, true)}
	case 2:
		from = []*ledger.HashHeight{at(h, false)}
	case 3:
		from = []*ledger.HashHeight{at(h, false), at(999, false)}
	}
	base := uint64(0)
	for _, p := range from {
		if p.Height <= top && snaps[p.Height-1].Hash == p.Hash {
			base = p.Height
			break
		}
	}
	c.Op("hash list from %d shape %d", h, shape)
	type q struct{ step, to uint64 }
	var qs []q
	var reqs [][]byte
	for _, step := range []uint64{1, 2, 7, 99, 100, 101, 200, 1000} {
		for _, to := range []uint64{0, 1, 2, 3, 51, 100, 101, 150, 199, 200, 201, 231, 232, 233, 300} {
			qs = append(qs, q{step, to})
			reqs = append(reqs, enc(&net.GetHashHeightList{From: from, Step: step, To: to}))
		}
	}
	for i, r := range ask(c, net.CodeGetHashList, reqs) {
		var want []string
		prev := uint64(0)
		for k := base + 1; base > 0 && k <= qs[i].to && k <= top; k++ {
			if k == base+1 || k%qs[i].step == 0 || k == qs[i].to {
				size := uint64(0)
				if prev > 0 {
					rd, err := n.W.Chain.GetLedgerReaderByHeight(prev, k)
					if err != nil {
						c.Fail("reader", "%v", err)
					}
					size = uint64(rd.Size())
					prev = k + 1
				} else {
					prev = k
				}
				want = append(want, fmt.Sprintf("%d/%s/%d", k, snaps[k-1].Hash, size))
			}
		}
		var got []string
		for _, p := range r.points {
			got = append(got, fmt.Sprintf("%d/%s/%d", p.Height, p.Hash, p.Size))
		}
		if len(want) == 0 {
			if r.exc != 1 || r.lists != 0 {
				c.Fail("nothing", "from %v step %d to %d: %d lists, %d refusals\n%s", from, qs[i].step, qs[i].to, r.lists, r.exc, brief(strings.Join(got, "\n")))
			}
			continue
		}
		if r.lists != 1 || r.exc != 0 || strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("hashlist", "from %d step %d to %d: %d lists, %d refusals\n%s\ninstead of\n%s", h, qs[i].step, qs[i].to, r.lists, r.exc, brief(strings.Join(got, "\n")), brief(strings.Join(want, "\n")))
		}
	}
}

// chunks downloads parts of the ledger through the file port and reads them with the reader of a
// downloading node.
func chunks(c *C) {
	n := theNode()
	if client == nil {
		w, err := Open(Options{Dir: explore.MkTemp("n02c-")})
		if err != nil {
			panic(err)
		}
		client = w
	}
	top := uint64(len(snaps))
	hs := []uint64{0, 1, 2, 3, 4, 50, 101, 102, 200, 231, 232, 233, 1 << 40}
	from := hs[c.Choose(len(hs))]
	c.Op("chunks from %d", from)
	p, why := n.Connect(nil)
	if p == nil {
		c.Fail("refused", "the node refuses a correct peer (%d)", why)
	}
	defer p.Close()
	if _, ok := p.Sync(); !ok {
		c.Fail("closed", "the node ended the connection of a correct peer")
	}
	t, conn, _ := p.FileHello(nil)
	if t == nil {
		c.Fail("refused", "the file port refuses a connected peer")
	}
	defer conn.Close()
	hash := func(h uint64) types.Hash {
		if h >= 1 && h <= top {
			return snaps[h-1].Hash
		}
		return unknown(h)
	}
	id := uint32(0)
	for _, to := range hs {
		for wrong := 0; wrong < 3; wrong++ {
			id++
			seg := interfaces.Segment{From: from, To: to, PrevHash: hash(from - 1), Hash: hash(to)}
			if wrong == 1 {
				seg.PrevHash = unknown(1)
			} else if wrong == 2 {
				seg.Hash = unknown(1)
			}
			b, err := proto.Marshal(&vitepb.ChunkRequest{From: from, To: to, PrevHash: seg.PrevHash.Bytes(), EndHash: seg.Hash.Bytes()})
			if err != nil {
				panic(err)
			}
			if err := t.WriteMsg(net.Msg{Code: net.CodeSyncRequest, Id: id, Payload: b}); err != nil {
				c.Fail("closed", "the node ended the file connection: %v", err)
			}
			m, err := t.ReadMsg()
			if err != nil {
				c.Fail("closed", "the node ended the file connection: %v", err)
			}
			c.AddTransitions(1)
			if m.Id != id {
				c.Fail("unasked", "an answer with number %d to request %d", m.Id, id)
			}
			ok := from >= 2 && from <= to && to <= top && wrong == 0
			if !ok {
				if m.Code != net.CodeException {
					c.Fail("missing", "chunk %d-%d (wrong %d) of a ledger with %d snapshots: code %d", from, to, wrong, top, m.Code)
				}
				continue
			}
			if m.Code != net.CodeSyncReady {
				c.Fail("refused", "chunk %d-%d of a ledger with %d snapshots: code %d", from, to, top, m.Code)
			}
			r := &vitepb.ChunkResponse{}
			if err := proto.Unmarshal(m.Payload, r); err != nil {
				c.Fail("decode", "%v", err)
			}
			if r.From != from || r.To != to || string(r.PrevHash) != string(seg.PrevHash.Bytes()) || string(r.EndHash) != string(seg.Hash.Bytes()) {
				c.Fail("chunk", "chunk %d-%d was asked for and %v announced", from, to, r)
			}
			body := make([]byte, r.Size)
			conn.SetReadDeadline(time.Now().Add(netkit.Wait))
			if _, err := io.ReadFull(conn, body); err != nil {
				c.Fail("chunk", "%d bytes announced for %d-%d: %v", r.Size, from, to, err)
			}
			readChunk(c, seg, body)
		}
	}
	c.State()
}

func readChunk(c *C, seg interfaces.Segment, body []byte) {
	cache := client.Chain.GetSyncCache()
	w, err := cache.NewWriter(seg, int64(len(body)))
	if err != nil {
		c.Fail("cache", "%v", err)
	}
	if _, err := w.Write(body); err != nil {
		c.Fail("cache", "%v", err)
	}
	if err := w.Close(); err != nil {
		c.Fail("cache", "%v", err)
	}
	defer cache.Delete(seg)
	rd, err := cache.NewReader(seg)
	if err != nil {
		c.Fail("cache", "%v", err)
	}
	defer rd.Close()
	h := seg.From
	var abs []*ledger.AccountBlock
	for {
		ab, sb, err := rd.Read()
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fail("chunk", "chunk %d-%d is not readable: %v", seg.From, seg.To, err)
		}
		if ab != nil {
			abs = append(abs, ab)
		}
		if sb != nil {
			if h > seg.To || SbText(sb) != SbText(snaps[h-1]) {
				c.Fail("chunk", "chunk %d-%d holds %s in place %d", seg.From, seg.To, SbText(sb), h)
			}
			if got, want := abText(abs, true), abText(lg.Abs[h-2], true); got != want {
				c.Fail("chunk", "chunk %d-%d holds for snapshot %d\n%s\ninstead of\n%s", seg.From, seg.To, h, got, want)
			}
			last := map[types.Address]uint64{}
			for _, b := range abs {
				if x, is := last[b.AccountAddress]; is && b.Height != x+1 {
					c.Fail("chunk-order", "block %d follows block %d of one account", b.Height, x)
				}
				last[b.AccountAddress] = b.Height
			}
			abs = nil
			h++
		}
	}
	if h != seg.To+1 || len(abs) > 0 {
		c.Fail("chunk", "chunk %d-%d ends with %d and %d more account blocks", seg.From, seg.To, h-1, len(abs))
	}
}

func main() {
	explore.Main(explore.Suite{Property: "N02", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []explore.Scenario {
		return []explore.Scenario{
			{Name: "snapshot-blocks", Bound: "a ledger of 232 snapshots; 24 start heights (existing or not, around the batch size of 100 and the head) x named by height or hash x direction x 25 counts (1 to 100000)", Body: snapshotBlocks},
			{Name: "account-blocks", Bound: "two accounts (of 222 and 46 blocks); 26 start heights x named by height, or by hash with or without the address x direction x 25 counts", Body: accountBlocks},
			{Name: "hash-list", Bound: "24 start heights x (known point; a wrong point first; wrong points only; wrong and missing points) x 8 steps x 15 ends", Body: hashLists},
			{Name: "chunks", Bound: "13 start heights x 13 end heights x correct hashes, wrong previous hash, wrong end hash; the bytes are read with the chunk reader and compared block by block", Body: chunks},
		}
	}})
}
