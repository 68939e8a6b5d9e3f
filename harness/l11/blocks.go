package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"time"

	"github.com/golang/snappy"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	fmgr "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	chain_utils "github.com/vitelabs/go-vite/v2/ledger/chain/utils"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

// chunk is a written snapshot block with the account blocks it confirms.
type chunk struct {
	*ledger.SnapshotChunk
	at   []*fmgr.Location // of the account blocks
	loc  *fmgr.Location   // of the snapshot block
	size int              // bytes in the files
}

func noise(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func accountBlock(n int, data int) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: uint64(n), Amount: big.NewInt(int64(n)), Fee: big.NewInt(0), Data: noise(data, byte(n))}
	copy(b.AccountAddress[:], noise(21, byte(n+100)))
	copy(b.ToAddress[:], noise(21, byte(n+101)))
	b.Hash = types.DataHash([]byte{byte(n), byte(data)})
	return b
}

func snapshotBlock(n int, content int) *ledger.SnapshotBlock {
	t := time.Unix(1600000000+int64(n), 0)
	b := &ledger.SnapshotBlock{Height: uint64(n), Timestamp: &t, SnapshotContent: ledger.SnapshotContent{}}
	for i := 0; i < content; i++ {
		var a types.Address
		a[0] = byte(i + 1)
		b.SnapshotContent[a] = &ledger.HashHeight{Height: uint64(n), Hash: types.DataHash([]byte{byte(i)})}
	}
	b.Hash = types.DataHash([]byte{byte(n), 77})
	return b
}

func unit(x interface{ Serialize() ([]byte, error) }) int {
	b, err := x.Serialize()
	if err != nil {
		panic(err)
	}
	return len(snappy.Encode(nil, b)) + 5
}

// exactSize is a file size that one of the chunks fills exactly; a block is always smaller than a file.
func exactSize() int {
	n := makeChunk(1, 1).size
	for kind := 0; kind < 3; kind++ {
		k := makeChunk(1, kind)
		b, _ := k.SnapshotBlock.Serialize()
		l := [][]byte{b}
		for _, a := range k.AccountBlocks {
			b, _ := a.Serialize()
			l = append(l, b)
		}
		for _, b := range l {
			if snappy.MaxEncodedLen(len(b))+5 > n {
				panic(fmt.Sprint("file too small ", n, " ", len(b)))
			}
		}
	}
	return n
}

type blocks struct {
	c          *C
	size       int
	dir        string
	db         *chain_block.BlockDB
	chunks     []*chunk
	disk       []*chunk
	image      []*chunk
	prepared   bool
	redo       []byte
	raw        []byte // bytes on disk
	startBytes int
	n          int
}

func bytesOf(l []*chunk) (n int) {
	for _, c := range l {
		n += c.size
	}
	return
}

func (x *blocks) pos(l *fmgr.Location) int { return int(l.FileId-1)*x.size + int(l.Offset) }

func (x *blocks) open() {
	db, err := chain_block.NewBlockDBFixedSize(x.dir, int64(x.size))
	if err != nil {
		x.c.Fail("L11/blocks-open", "%v", err)
	}
	x.db = db
}

func (x *blocks) close() {
	if x.db != nil {
		x.db.Close()
		x.db = nil
	}
}

func makeChunk(n, kind int) *chunk {
	k := &chunk{SnapshotChunk: &ledger.SnapshotChunk{}}
	switch kind {
	case 1:
		k.AccountBlocks = []*ledger.AccountBlock{accountBlock(n*2, 0), accountBlock(n*2+1, 60)}
	case 2:
		k.AccountBlocks = []*ledger.AccountBlock{accountBlock(n*2, 80)}
	}
	k.SnapshotBlock = snapshotBlock(n, len(k.AccountBlocks))
	k.size = unit(k.SnapshotBlock)
	for _, b := range k.AccountBlocks {
		k.size += unit(b)
	}
	return k
}

func (x *blocks) write(kind int) {
	x.n++
	x.c.Op("write chunk %d", kind)
	k := makeChunk(x.n, kind)
	at, loc, err := x.db.Write(k.SnapshotChunk)
	if err != nil {
		x.c.Fail("L11/blocks-write-error", "%v", err)
	}
	p := bytesOf(x.chunks)
	for _, b := range k.AccountBlocks {
		l := at[b.Hash]
		if l == nil || x.pos(l) != p {
			x.c.Fail("L11/blocks-location", "an account block was written to %v, not to byte %d", l, p)
		}
		k.at = append(k.at, l)
		p += unit(b)
	}
	if loc == nil || x.pos(loc) != p {
		x.c.Fail("L11/blocks-location", "a snapshot block was written to %v, not to byte %d", loc, p)
	}
	k.loc = loc
	x.chunks = append(append([]*chunk(nil), x.chunks...), k)
}

func (x *blocks) same(what string, have []*ledger.SnapshotChunk, want []*chunk) {
	ok := len(have) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = have[i].SnapshotBlock != nil && sameSnapshot(have[i].SnapshotBlock, want[i].SnapshotBlock) && sameAccounts(have[i].AccountBlocks, want[i].AccountBlocks)
	}
	if !ok {
		d := func(l []*ledger.SnapshotChunk) (s string) {
			for _, k := range l {
				s += fmt.Sprintf(" [%d +%d]", k.SnapshotBlock.Height, len(k.AccountBlocks))
			}
			return
		}
		var w []*ledger.SnapshotChunk
		for _, k := range want {
			w = append(w, k.SnapshotChunk)
		}
		x.c.Fail("L11/blocks-"+what, "%s gives%s, not%s", what, d(have), d(w))
	}
}

func sameSnapshot(a, b *ledger.SnapshotBlock) bool {
	x, err1 := a.Serialize()
	y, err2 := b.Serialize()
	if a.Hash != b.Hash || a.Height != b.Height || err1 != nil || err2 != nil || len(x) != len(y) || len(a.SnapshotContent) != len(b.SnapshotContent) {
		return false
	}
	for k, v := range b.SnapshotContent {
		if w := a.SnapshotContent[k]; w == nil || *w != *v {
			return false
		}
	}
	return true
}

func sameAccounts(a, b []*ledger.AccountBlock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, err1 := a[i].Serialize()
		y, err2 := b[i].Serialize()
		if err1 != nil || err2 != nil || !reflect.DeepEqual(x, y) {
			return false
		}
	}
	return true
}

// rollback to a number of chunks, the way the ledger does it.
func (x *blocks) rollback(n int) {
	x.c.Op("rollback to %d", n)
	loc := fmgr.NewLocation(1, 0)
	if n > 0 {
		var err error
		if loc, err = x.db.GetNextLocation(x.chunks[n-1].loc); err != nil || loc == nil {
			x.c.Fail("L11/blocks-next", "no location after chunk %d: %v", n, err)
		}
	}
	have, err := x.db.PrepareRollback(loc)
	if err != nil {
		x.c.Fail("L11/blocks-rollback-error", "%v", err)
	}
	x.same("rollback", have, x.chunks[n:])
	if err := x.db.Rollback(loc); err != nil {
		x.c.Fail("L11/blocks-rollback-error", "%v", err)
	}
	x.chunks = x.chunks[:n]
}

func (x *blocks) prepare() {
	x.c.Op("prepare")
	x.db.Prepare()
	var err error
	if x.redo, err = x.db.RedoLog(); err != nil {
		x.c.Fail("L11/blocks-redo", "%v", err)
	}
	x.redo = append([]byte(nil), x.redo...)
	x.image, x.prepared = x.chunks, true
	x.startBytes = x.pos(chain_utils.DeserializeLocation(x.redo[:12]))
	if t := x.pos(chain_utils.DeserializeLocation(x.redo[12:24])); x.startBytes+len(x.redo)-24 != t || t != bytesOf(x.chunks) {
		x.c.Fail("L11/blocks-redo", "the redo log takes %d bytes from %d to %d, the files end at %d", len(x.redo)-24, x.startBytes, t, bytesOf(x.chunks))
	}
}

func (x *blocks) commit() {
	x.c.Op("commit")
	if err := x.db.Commit(); err != nil {
		x.c.Fail("L11/blocks-commit", "%v", err)
	}
	x.db.AfterCommit()
	x.disk, x.prepared = x.image, false
	d := readDisk(filepath.Join(x.dir, "blocks"))
	var all []byte
	for i := 1; i <= len(d); i++ {
		all = append(all, d[i]...)
	}
	x.raw = append(append([]byte(nil), x.raw[:x.startBytes]...), x.redo[24:]...)
	if string(all) != string(x.raw) {
		x.c.Fail("L11/blocks-commit", "the files hold %d bytes after a flush of %d, or different ones", len(all), len(x.raw))
	}
}

func (x *blocks) cancel() {
	x.c.Op("cancel")
	x.db.CancelPrepare()
	x.prepared = false
}

func (x *blocks) restart(d disk, redo bool) {
	x.close()
	if d != nil {
		os.RemoveAll(x.dir)
		x.dir = MkTemp("l11")
		dir := x.dir
		x.c.Defer(func() { os.RemoveAll(dir) })
		d.write(filepath.Join(x.dir, "blocks"))
	}
	x.open()
	if redo {
		x.db.BeforeRecover(x.redo)
		if err := x.db.PatchRedoLog(x.redo); err != nil {
			x.c.Fail("L11/blocks-recover", "%v", err)
		}
		x.db.AfterRecover()
		x.disk = x.image
		x.raw = append(append([]byte(nil), x.raw[:x.startBytes]...), x.redo[24:]...)
	}
	x.chunks, x.prepared = x.disk, false
}

func (x *blocks) check() {
	c := x.c
	for i, k := range x.chunks {
		sb, err := x.db.GetSnapshotBlock(k.loc)
		if err != nil || sb == nil || !sameSnapshot(sb, k.SnapshotBlock) {
			c.Fail("L11/blocks-read", "snapshot block %d is %v (%v)", k.SnapshotBlock.Height, sb, err)
		}
		h, err := x.db.GetSnapshotHeader(k.loc)
		if err != nil || h == nil || h.Hash != k.SnapshotBlock.Hash || h.SnapshotContent != nil {
			c.Fail("L11/blocks-read", "header of snapshot block %d is %v (%v)", k.SnapshotBlock.Height, h, err)
		}
		first := k.loc
		for j, b := range k.AccountBlocks {
			ab, err := x.db.GetAccountBlock(k.at[j])
			if err != nil || ab == nil || !sameAccounts([]*ledger.AccountBlock{ab}, []*ledger.AccountBlock{b}) {
				c.Fail("L11/blocks-read", "account block %d is %v (%v)", b.Height, ab, err)
			}
			next := k.loc
			if j+1 < len(k.at) {
				next = k.at[j+1]
			}
			s, a, n, err := x.db.ReadUnit(k.at[j])
			if err != nil || s != nil || a == nil || a.Hash != b.Hash || x.pos(n) != x.pos(next) {
				c.Fail("L11/blocks-unit", "the unit at account block %d is %v %v, next %v (%v)", b.Height, s, a, n, err)
			}
			raw, n, err := x.db.ReadUnitBytes(k.at[j])
			w, _ := b.Serialize()
			if err != nil || string(raw) != string(w) || x.pos(n) != x.pos(next) {
				c.Fail("L11/blocks-unit", "the bytes at account block %d: %x, next %v (%v)", b.Height, raw, n, err)
			}
			n, err = x.db.GetNextLocation(k.at[j])
			if err != nil || x.pos(n) != x.pos(next) {
				c.Fail("L11/blocks-next", "after account block %d comes %v (%v)", b.Height, n, err)
			}
			if j == 0 {
				first = k.at[0]
			}
		}
		end := bytesOf(x.chunks[:i+1])
		s, a, n, err := x.db.ReadUnit(k.loc)
		if err != nil || s == nil || a != nil || !sameSnapshot(s, k.SnapshotBlock) || x.pos(n) != end {
			c.Fail("L11/blocks-unit", "the unit at snapshot block %d is %v %v, next %v (%v)", k.SnapshotBlock.Height, s, a, n, err)
		}
		n, err = x.db.GetNextLocation(k.loc)
		if err != nil || n == nil || x.pos(n) != end {
			c.Fail("L11/blocks-next", "after snapshot block %d comes %v (%v)", k.SnapshotBlock.Height, n, err)
		}
		g, n, err := x.db.ReadChunk(*first)
		if err != nil || x.pos(n) != end {
			c.Fail("L11/blocks-chunk", "chunk %d ends at %v (%v)", i, n, err)
		}
		x.same("chunk", []*ledger.SnapshotChunk{g}, x.chunks[i:i+1])
		raw := make([]byte, k.size)
		if n, m, err := x.db.ReadRaw(first, raw); err != nil || m != k.size || x.pos(n) != end {
			c.Fail("L11/blocks-raw", "the bytes of chunk %d: %d read up to %v (%v)", i, m, n, err)
		}
		for j := i; j < len(x.chunks); j++ {
			r, err := x.db.ReadRange(first, x.chunks[j].loc)
			if err != nil {
				c.Fail("L11/blocks-range", "%v", err)
			}
			x.same("range", r, x.chunks[i:j+1])
		}
		r, err := x.db.ReadRange(first, nil)
		if err != nil {
			c.Fail("L11/blocks-range", "%v", err)
		}
		x.same("range", r, x.chunks[i:])
		r, err = x.db.PrepareRollback(first)
		if err != nil {
			c.Fail("L11/blocks-rollback-error", "%v", err)
		}
		x.same("rollback", r, x.chunks[i:])
	}
	// nothing lies behind the last block
	end := fmgr.NewLocation(uint64(bytesOf(x.chunks)/x.size+1), int64(bytesOf(x.chunks)%x.size))
	if n, err := x.db.GetNextLocation(end); err != nil || n != nil {
		c.Fail("L11/blocks-end", "something follows the last block: %v (%v)", n, err)
	}
	if sb, err := x.db.GetSnapshotBlock(end); sb != nil {
		c.Fail("L11/blocks-end", "a block lies behind the last block: %v (%v)", sb, err)
	}
	c.State()
}

func (x *blocks) step(i, d int) {
	c := x.c
	var l []func()
	for kind := 0; kind < 3; kind++ {
		kind := kind
		// the cache holds everything not yet on disk
		if n := bytesOf(x.chunks) + makeChunk(x.n+1, kind).size - 1; !x.prepared || n/x.size-x.startBytes/x.size < 10 {
			l = append(l, func() { x.write(kind) })
		}
	}
	for n := range x.chunks {
		n := n
		l = append(l, func() { x.rollback(n) })
	}
	if !x.prepared {
		l = append(l, x.prepare)
		l = append(l, func() { c.Op("restart"); x.restart(nil, false) })
	} else {
		l = append(l, x.commit, x.cancel)
		l = append(l, func() {
			ds, names := crashPoints(readDisk(filepath.Join(x.dir, "blocks")), x.size, x.startBytes, bytesOf(x.image), x.redo[24:], 40)
			k := c.Choose(len(ds))
			c.Op("crash with %s", names[k])
			x.restart(ds[k], true)
		})
	}
	l[c.Choose(len(l))]()
	if c.Fresh() || i == d {
		x.check()
	}
}

func blockScenario(size, d int) Scenario {
	return Scenario{Name: fmt.Sprintf("blocks-%d-depth%d", size, d), Body: func(c *C) {
		x := &blocks{c: c, size: size, dir: MkTemp("l11")}
		c.Defer(func() { x.close(); os.RemoveAll(x.dir) })
		x.open()
		for i := 1; i <= d; i++ {
			x.step(i, d)
		}
	}}
}
