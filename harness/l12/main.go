// Property L12: the cache of downloaded chain segments. Writers, deletions, verification marks, restarts with
// unfinished downloads and files cut at every byte are enumerated on the real cache.
package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/golang/snappy"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	"github.com/vitelabs/go-vite/v2/ledger/chain/sync_cache"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type record struct {
	ab  *ledger.AccountBlock
	sb  *ledger.SnapshotBlock
	raw []byte
}

func noise(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func account(n byte, data int) *record {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: uint64(n), Amount: big.NewInt(int64(n)), Fee: big.NewInt(0), Data: noise(data, n)}
	b.AccountAddress[0], b.ToAddress[1] = n, n
	b.Hash = types.DataHash([]byte{n, 1})
	return pack(&record{ab: b})
}

func snapshot(n byte) *record {
	t := time.Unix(1600000000+int64(n), 0)
	b := &ledger.SnapshotBlock{Height: uint64(n), Timestamp: &t, SnapshotContent: ledger.SnapshotContent{}}
	b.Hash = types.DataHash([]byte{n, 2})
	return pack(&record{sb: b})
}

// pack writes a block the way the block files hold it.
func pack(r *record) *record {
	var b []byte
	var err error
	kind := chain_block.BlockTypeAccountBlock
	if r.ab != nil {
		b, err = r.ab.Serialize()
	} else {
		kind = chain_block.BlockTypeSnapshotBlock
		b, err = r.sb.Serialize()
	}
	if err != nil {
		panic(err)
	}
	s := snappy.Encode(nil, b)
	r.raw = make([]byte, 4, 5+len(s))
	binary.BigEndian.PutUint32(r.raw, uint32(len(s)+1))
	r.raw = append(append(r.raw, kind), s...)
	return r
}

var contents = [][]*record{
	{account(1, 3), snapshot(2), account(3, 0), account(3, 0), snapshot(4)},
	{account(5, 9000), snapshot(6), account(7, 20), snapshot(8)}, // larger than the reader's buffer
	{},
}

func bytesOf(l []*record) (b []byte) {
	for _, r := range l {
		b = append(b, r.raw...)
	}
	return
}

// sameRecord compares what was read with what was written.
func sameRecord(ab *ledger.AccountBlock, sb *ledger.SnapshotBlock, r *record) bool {
	if (ab != nil) == (sb != nil) {
		return false
	}
	return string(pack(&record{ab: ab, sb: sb}).raw) == string(r.raw)
}

type item struct {
	interfaces.Segment
	content  []*record
	size     int64
	w        io.WriteCloser
	done     bool
	verified bool
}

type world struct {
	c     *C
	dir   string
	cache interfaces.SyncCache
	items []*item
}

func seg(from, to uint64, variant byte) interfaces.Segment {
	s := interfaces.Segment{From: from, To: to, PrevHash: types.DataHash([]byte{byte(from), variant}), Hash: types.DataHash([]byte{byte(to), variant, 1})}
	if to > from {
		s.Points = []*ledger.HashHeight{{Height: to, Hash: s.Hash}, {Height: from, Hash: types.Hash{9, variant}}}
	}
	return s
}

// half has the same end but another beginning.
func half(s interfaces.Segment) interfaces.Segment { s.PrevHash = types.Hash{1}; return s }

// tail has the same beginning but another end.
func tail(s interfaces.Segment) interfaces.Segment { s.Hash = types.Hash{2}; return s }

var segments = []interfaces.Segment{seg(1, 2, 0), seg(1, 2, 1), half(seg(1, 2, 0)), tail(seg(1, 2, 0)), seg(3, 4, 0), seg(2, 3, 0), seg(4, 4, 0), seg(1, 4, 0), seg(1000000001, 1000000100, 0)}

func (w *world) open() {
	cache, err := sync_cache.NewSyncCache(w.dir)
	if err != nil {
		w.c.Fail("L12/open", "%v", err)
	}
	w.cache = cache
	w.c.Defer(func() { cache.Close() })
}

func same(a, b interfaces.Segment) bool {
	if a.From != b.From || a.To != b.To || a.Hash != b.Hash || a.PrevHash != b.PrevHash || len(a.Points) != len(b.Points) {
		return false
	}
	for i := range a.Points {
		if *a.Points[i] != *b.Points[i] {
			return false
		}
	}
	return true
}

func (w *world) check() {
	c := w.c
	var done []*item
	for _, it := range w.items {
		if it.done {
			done = append(done, it)
		}
	}
	sort.Slice(done, func(i, j int) bool { return done[i].From < done[j].From })
	have := w.cache.Chunks()
	ok := len(have) == len(done)
	for i := 0; ok && i < len(done); i++ {
		ok = same(have[i], done[i].Segment)
	}
	if !ok {
		var want []string
		for _, it := range done {
			want = append(want, it.Segment.String())
		}
		c.Fail("L12/chunks", "the cache lists %v, not %v", have, want)
	}
	for _, s := range segments {
		var it *item
		for _, x := range done {
			if same(x.Segment, s) {
				it = x
			}
		}
		r, err := w.cache.NewReader(s)
		if (err == nil) != (it != nil) {
			c.Fail("L12/reader", "opening segment %s: %v, cached: %v", s.String(), err, it != nil)
		}
		if err != nil {
			continue
		}
		if r.Size() != it.size || r.Verified() != it.verified {
			c.Fail("L12/marks", "segment %s: size %d verified %v instead of %d %v", s.String(), r.Size(), r.Verified(), it.size, it.verified)
		}
		for i := 0; ; i++ {
			ab, sb, err := r.Read()
			if i == len(it.content) {
				if err != io.EOF {
					c.Fail("L12/end", "segment %s does not end after its %d blocks: %v %v %v", s.String(), i, ab, sb, err)
				}
				break
			}
			if err != nil || !sameRecord(ab, sb, it.content[i]) {
				c.Fail("L12/read", "block %d of segment %s is %v %v (%v)", i, s.String(), ab, sb, err)
			}
		}
		r.Close()
	}
	l, err := ioutil.ReadDir(w.dir)
	if err != nil {
		panic(err)
	}
	n := 0
	for _, f := range l {
		if !f.IsDir() {
			n++
		}
	}
	if n != len(w.items) {
		c.Fail("L12/files", "%d files are kept for %d segments", n, len(w.items))
	}
	c.State()
}

func (w *world) step() {
	c := w.c
	var l []func()
	for i := range segments {
		i, s := i, segments[i]
		l = append(l, func() {
			c.Op("begin %s", s.String())
			overlap := false
			for _, it := range w.items {
				if it.From <= s.To && s.From <= it.To {
					overlap = true
				}
			}
			it := &item{Segment: s, size: int64(i + 1)}
			wr, err := w.cache.NewWriter(s, it.size)
			if (err != nil) != overlap {
				c.Fail("L12/overlap", "writer for %s: %v, overlapping: %v", s.String(), err, overlap)
			}
			if err == nil {
				it.w = wr
				w.items = append(w.items, it)
				// a first part arrives
				it.content = contents[i%len(contents)]
				b := bytesOf(it.content)
				if _, err := wr.Write(b[:len(b)/2]); err != nil {
					c.Fail("L12/write", "%v", err)
				}
			}
		})
	}
	for i := range w.items {
		i := i
		it := w.items[i]
		if !it.done {
			l = append(l, func() {
				c.Op("finish %s", it.Segment.String())
				b := bytesOf(it.content)
				if n, err := it.w.Write(b[len(b)/2:]); err != nil || n != len(b)-len(b)/2 {
					c.Fail("L12/write", "%d %v", n, err)
				}
				if err := it.w.Close(); err != nil {
					c.Fail("L12/finish", "%v", err)
				}
				it.done = true
			})
			continue
		}
		l = append(l, func() {
			c.Op("delete %s", it.Segment.String())
			if err := w.cache.Delete(it.Segment); err != nil {
				c.Fail("L12/delete", "%v", err)
			}
			w.items = append(append([]*item(nil), w.items[:i]...), w.items[i+1:]...)
		})
		if !it.verified {
			l = append(l, func() {
				c.Op("verify %s", it.Segment.String())
				r, err := w.cache.NewReader(it.Segment)
				if err != nil {
					c.Fail("L12/reader", "%v", err)
				}
				r.Verify()
				r.Close()
				it.verified = true
			})
		}
	}
	if len(w.items) > 0 {
		l = append(l, func() {
			c.Op("restart")
			if err := w.cache.Close(); err != nil {
				c.Fail("L12/close", "%v", err)
			}
			w.open()
			var left []*item
			for _, it := range w.items {
				if it.done {
					left = append(left, it)
				}
			}
			w.items = left
		})
	}
	if n := c.Choose(len(l) + 1); n == len(l) {
		c.Op("delete unknown")
		for _, s := range segments {
			known := false
			for _, it := range w.items {
				known = known || same(it.Segment, s)
			}
			if known {
				continue
			}
			if err := w.cache.Delete(s); err == nil {
				c.Fail("L12/delete-unknown", "deleting %s, which is not cached, succeeds", s.String())
			}
		}
	} else {
		l[n]()
	}
}

func history(d int) Scenario {
	return Scenario{Name: fmt.Sprintf("histories-depth%d", d), Body: func(c *C) {
		w := &world{c: c, dir: filepath.Join(MkTemp("l12"), "cache")}
		c.Defer(func() { os.RemoveAll(filepath.Dir(w.dir)) })
		w.open()
		for i := 1; i <= d; i++ {
			w.step()
			if c.Fresh() || i == d {
				w.check()
			}
		}
	}}
}

// cut: a file that lost its end gives its intact blocks and then an error, never a different block.
var cut = Scenario{Name: "cut-files", Body: func(c *C) {
	l := contents[c.Choose(2)]
	w := &world{c: c, dir: filepath.Join(MkTemp("l12"), "cache")}
	c.Defer(func() { os.RemoveAll(filepath.Dir(w.dir)) })
	w.open()
	wr, err := w.cache.NewWriter(segments[0], 1)
	if err != nil {
		c.Fail("L12/open", "%v", err)
	}
	b := bytesOf(l)
	wr.Write(b)
	if err := wr.Close(); err != nil {
		c.Fail("L12/finish", "%v", err)
	}
	files, _ := ioutil.ReadDir(w.dir)
	name := ""
	for _, f := range files {
		if !f.IsDir() {
			name = filepath.Join(w.dir, f.Name())
		}
	}
	big := len(b) > 2000
	for n := len(b); n >= 0; n-- {
		if big && n%97 != 0 && n > 400 && n < len(b)-400 {
			continue
		}
		if err := os.Truncate(name, int64(n)); err != nil {
			panic(err)
		}
		r, err := w.cache.NewReader(segments[0])
		if err != nil {
			c.Fail("L12/reader", "%v", err)
		}
		whole, left := 0, n
		for whole < len(l) && left >= len(l[whole].raw) {
			left -= len(l[whole].raw)
			whole++
		}
		for i := 0; ; i++ {
			ab, sb, err := r.Read()
			if err != nil {
				if i != whole {
					c.Fail("L12/cut-early", "a file cut to %d of %d bytes gives %d blocks, it holds %d (%v)", n, len(b), i, whole, err)
				}
				break
			}
			if i >= whole || !sameRecord(ab, sb, l[i]) {
				c.Fail("L12/cut", "a file cut to %d of %d bytes holds %d whole blocks; block %d read from it is %v %v", n, len(b), whole, i, ab, sb)
			}
		}
		r.Close()
		c.State()
		c.AddTransitions(1)
	}
}}

func main() {
	Main(Suite{Property: "L12", Scenarios: func(tier string) []Scenario {
		d := 4
		if tier == "thorough" {
			d = 5
		}
		return []Scenario{history(d), cut, Asked(history(d - 1))}
	}})
}
