// Property K01: the ledger's key-value store. Account blocks, snapshots, direct writes, rollbacks of both kinds, the
// phases of a flush and restarts are enumerated on the real store; every read is compared with the history.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/storage"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_db "github.com/vitelabs/go-vite/v2/ledger/chain/db"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type table map[string]string

func (t table) clone() table {
	r := make(table, len(t))
	for k, v := range t {
		r[k] = v
	}
	return r
}

// change is one put or delete.
type change struct {
	key, val string
	del      bool
}

func (t table) apply(l []change) {
	for _, c := range l {
		if c.del {
			delete(t, c.key)
		} else {
			t[c.key] = c.val
		}
	}
}

func batchOf(l []change) *leveldb.Batch {
	b := new(leveldb.Batch)
	for _, c := range l {
		if c.del {
			b.Delete([]byte(c.key))
		} else {
			b.Put([]byte(c.key), []byte(c.val))
		}
	}
	return b
}

// diff lists the changes that turn a into b.
func diff(a, b table) (l []change) {
	for k := range a {
		if _, ok := b[k]; !ok {
			l = append(l, change{key: k, del: true})
		}
	}
	for k, v := range b {
		if old, ok := a[k]; !ok || old != v {
			l = append(l, change{key: k, val: v})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].key < l[j].key })
	return
}

type block struct {
	acc     int
	hash    types.Hash
	changes []change
}

type world struct {
	c         *C
	st        storage.Storage
	db        *leveldb.DB
	s         *chain_db.Store
	conf      table   // what is confirmed
	unconf    []block // account blocks not yet confirmed, in order
	snaps     []table // conf at each snapshot
	n         int
	phase     int // 0 idle, 1 prepared, 2 committed
	prep      table
	prepSnaps []table
	redo      []byte
	disk      table
	diskSnaps []table
	hasDirect bool
}

func (w *world) view() table {
	t := w.conf.clone()
	for _, b := range w.unconf {
		t.apply(b.changes)
	}
	return t
}

func (w *world) open() {
	d, err := leveldb.Open(w.st, &opt.Options{WriteBuffer: 2048, BlockCacheCapacity: -1})
	if err != nil {
		w.c.Fail("K01/open", "%v", err)
	}
	w.db = d
	s, err := chain_db.NewStoreWithDb("", "k01", d)
	if err != nil {
		w.c.Fail("K01/open", "%v", err)
	}
	w.s = s
}

var accounts = []string{"a", "b"}

func (w *world) height(acc int) int {
	t := w.view()
	return len(t[accounts[acc]+"!"])
}

// writes of an account block: a record of its own, the latest height (a value as long as the height), and a flag that
// is set, emptied and removed in turn.
func (w *world) blockChanges(acc int) []change {
	a := accounts[acc]
	h := w.height(acc) + 1
	w.n++
	l := []change{{key: fmt.Sprintf("%s/%d", a, h), val: fmt.Sprintf("%d", w.n)}, {key: a + "!", val: string(bytes.Repeat([]byte{'.'}, h))}}
	switch h % 3 {
	case 1:
		l = append(l, change{key: a + "x", val: fmt.Sprintf("%d", w.n)})
	case 2:
		l = append(l, change{key: a + "x", val: ""}, change{key: a + "x", val: "tmp"}, change{key: a + "x", val: ""})
	case 0:
		l = append(l, change{key: a + "x", del: true})
	}
	return l
}

func (w *world) ops() (l []func()) {
	c := w.c
	for acc := range accounts {
		acc := acc
		if acc == 1 && w.n == 0 {
			break
		}
		l = append(l, func() {
			c.Op("block of %s", accounts[acc])
			b := block{acc: acc, changes: w.blockChanges(acc)}
			b.hash = types.DataHash([]byte{byte(w.n)})
			if w.n%2 == 0 {
				w.s.WriteAccountBlock(batchOf(b.changes), &ledger.AccountBlock{Hash: b.hash})
			} else {
				w.s.WriteAccountBlockByHash(batchOf(b.changes), b.hash)
			}
			w.unconf = append(w.unconf, b)
		})
	}
	var count [2]int
	for _, b := range w.unconf {
		count[b.acc]++
	}
	// remove the newest account blocks of an account
	for acc := range accounts {
		acc := acc
		for n := 1; n <= count[acc]; n++ {
			n := n
			l = append(l, func() {
				c.Op("remove %d blocks of %s", n, accounts[acc])
				before := w.view()
				var left []block
				var gone []types.Hash
				k := 0
				for _, b := range w.unconf {
					if b.acc == acc {
						if k++; k > count[acc]-n {
							gone = append(gone, b.hash)
							continue
						}
					}
					left = append(left, b)
				}
				w.unconf = left
				rb := batchOf(diff(before, w.view()))
				if n%2 == 0 {
					w.s.RollbackAccountBlockByHash(rb, gone)
				} else {
					var bl []*ledger.AccountBlock
					for _, h := range gone {
						bl = append(bl, &ledger.AccountBlock{Hash: h})
					}
					w.s.RollbackAccountBlocks(rb, bl)
				}
			})
		}
	}
	// snapshot confirming a prefix of each account's blocks
	for ka := 0; ka <= count[0]; ka++ {
		for kb := 0; kb <= count[1]; kb++ {
			if ka+kb == 0 && w.n == 0 {
				continue
			}
			k := [2]int{ka, kb}
			l = append(l, func() {
				c.Op("snapshot of %v", k)
				k := k
				var left []block
				var hashes []types.Hash
				for _, b := range w.unconf {
					if k[b.acc] > 0 {
						k[b.acc]--
						hashes = append(hashes, b.hash)
						w.conf.apply(b.changes)
					} else {
						left = append(left, b)
					}
				}
				w.unconf = left
				w.n++
				sc := []change{{key: fmt.Sprintf("s/%d", len(w.snaps)+1), val: fmt.Sprint(w.n)}, {key: "s!", val: fmt.Sprint(len(w.snaps) + 1)}}
				w.conf.apply(sc)
				if w.n%2 == 0 {
					w.s.WriteSnapshotByHash(batchOf(sc), hashes)
				} else {
					var bl []*ledger.AccountBlock
					for _, h := range hashes {
						bl = append(bl, &ledger.AccountBlock{Hash: h})
					}
					w.s.WriteSnapshot(batchOf(sc), bl)
				}
				w.snaps = append(w.snaps, w.conf.clone())
			})
		}
	}
	// remove snapshots, and with them everything later
	for n := 1; n <= len(w.snaps) && n <= 2; n++ {
		n := n
		l = append(l, func() {
			c.Op("remove %d snapshots", n)
			target := table{}
			if k := len(w.snaps) - n; k > 0 {
				target = w.snaps[k-1].clone()
			}
			rb := batchOf(diff(w.view(), target))
			w.snaps = w.snaps[:len(w.snaps)-n:len(w.snaps)-n]
			w.conf, w.unconf = target, nil
			w.s.RollbackSnapshot(rb)
		})
	}
	l = append(l, func() {
		w.n++
		ch := []change{{key: "d", val: fmt.Sprint(w.n)}}
		if _, ok := w.conf["d"]; ok {
			ch = []change{{key: "d", del: true}}
		}
		c.Op("direct write")
		w.conf.apply(ch)
		w.s.WriteDirectly(batchOf(ch))
	})
	switch w.phase {
	case 0:
		l = append(l, func() {
			c.Op("prepare")
			w.s.Prepare()
			w.prep, w.prepSnaps = w.conf.clone(), append([]table(nil), w.snaps...)
			r, err := w.s.RedoLog()
			if err != nil {
				c.Fail("K01/redo", "%v", err)
			}
			w.redo = append([]byte(nil), r...)
			w.phase = 1
		})
	case 1:
		l = append(l, func() {
			c.Op("commit")
			if err := w.s.Commit(); err != nil {
				c.Fail("K01/commit", "%v", err)
			}
			w.disk, w.diskSnaps = w.prep, w.prepSnaps
			w.phase = 2
		}, func() {
			c.Op("cancel")
			w.s.CancelPrepare()
			w.phase, w.prep, w.redo = 0, nil, nil
		})
	case 2:
		l = append(l, func() {
			c.Op("after commit")
			w.s.AfterCommit()
			w.phase, w.prep, w.redo = 0, nil, nil
		})
	}
	restart := func(redo bool) func() {
		return func() {
			c.Op("restart redo=%v", redo)
			if err := w.s.Close(); err != nil {
				c.Fail("K01/close", "%v", err)
			}
			w.open()
			if redo {
				w.s.BeforeRecover(w.redo)
				called := 0
				w.s.RegisterAfterRecover(func() { called++ })
				if err := w.s.PatchRedoLog(w.redo); err != nil {
					c.Fail("K01/redo", "%v", err)
				}
				w.s.AfterRecover()
				if called != 1 {
					c.Fail("K01/after-recover", "the recovery callback ran %d times", called)
				}
				w.disk, w.diskSnaps = w.prep, w.prepSnaps
			}
			w.conf, w.unconf = w.disk.clone(), nil
			w.snaps = append([]table(nil), w.diskSnaps...)
			w.phase, w.prep, w.redo = 0, nil, nil
		}
	}
	if w.n > 0 {
		l = append(l, restart(false))
		if w.redo != nil {
			l = append(l, restart(true))
		}
	}
	return
}

var universe = func() (l []string) {
	for _, a := range append([]string{"s"}, accounts...) {
		for h := 1; h <= 7; h++ {
			l = append(l, fmt.Sprintf("%s/%d", a, h))
		}
		l = append(l, a+"!", a+"x", a)
	}
	l = append(l, "d", "e", "0", "zz")
	sort.Strings(l)
	return
}()

func (w *world) check() {
	c := w.c
	v := w.view()
	for _, k := range universe {
		want, there := v[k]
		got, err := w.s.Get([]byte(k))
		if err != nil || string(got) != want || (got != nil) != there {
			c.Fail("K01/get", "key %s reads %q %v, should be %q %v", k, got, err, want, there)
		}
		if has, err := w.s.Has([]byte(k)); err != nil || has != there {
			c.Fail("K01/has", "key %s: has %v %v, should be %v", k, has, err, there)
		}
		got, err = w.s.GetOriginal([]byte(k))
		if there && (err != nil || string(got) != want) || !there && err != leveldb.ErrNotFound {
			c.Fail("K01/get-original", "key %s reads %q %v, should be %q %v", k, got, err, want, there)
		}
	}
	rng := func(from, to string, r *util.Range) {
		var keys []string
		for k := range v {
			if k >= from && (to == "" || k < to) {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		it := w.s.NewIterator(r)
		defer it.Release()
		at := func(i int, what string, ok bool) {
			if ok != (i >= 0 && i < len(keys)) {
				c.Fail("K01/iterator", "range %q..%q: %s gives %v at position %d of %v", from, to, what, ok, i, keys)
			}
			if ok && (string(it.Key()) != keys[i] || string(it.Value()) != v[keys[i]]) {
				c.Fail("K01/iterator", "range %q..%q: %s gives %q=%q at position %d, should be %q=%q", from, to, what, it.Key(), it.Value(), i, keys[i], v[keys[i]])
			}
		}
		for i := 0; i <= len(keys); i++ {
			at(i, "next", it.Next())
		}
		if len(keys) > 0 {
			at(len(keys)-1, "prev", it.Prev())
		}
		at(len(keys)-1, "last", it.Last())
		for i := len(keys) - 2; i >= -1; i-- {
			at(i, "prev", it.Prev())
		}
		for _, k := range universe {
			if len(k) > 1 && k[0] != 's' && k[len(k)-1] > '2' {
				continue
			}
			i := sort.SearchStrings(keys, k)
			at(i, "seek "+k, it.Seek([]byte(k)))
			if i < len(keys) {
				at(i+1, "next after seek", it.Next())
				if i+1 < len(keys) {
					at(i, "prev after next", it.Prev())
				}
				it.Seek([]byte(k))
				at(i-1, "prev after seek", it.Prev())
			}
		}
		if err := it.Error(); err != nil {
			c.Fail("K01/iterator", "%v", err)
		}
	}
	rng("", "", nil)
	rng("a/", "a0", util.BytesPrefix([]byte("a/")))
	rng("a/2", "s!", &util.Range{Start: []byte("a/2"), Limit: []byte("s!")})
	rng("b", "", &util.Range{Start: []byte("b")})
	c.State()
}

// disk: what a second store over the same files reads.
func body(depth int, pre func(w *world)) func(c *C) {
	return func(c *C) {
		w := &world{c: c, st: storage.NewMemStorage(), conf: table{}, disk: table{}}
		w.open()
		c.Defer(func() { w.db.Close() })
		if pre != nil {
			pre(w)
			w.check()
		}
		for i := 1; i <= depth; i++ {
			l := w.ops()
			l[c.Choose(len(l))]()
			if c.Fresh() || i == depth {
				w.check()
			}
		}
	}
}

func run(w *world, names ...string) {
	for _, n := range names {
		l := w.ops()
		done := false
		switch n {
		case "a":
			l[0]()
			done = true
		case "b":
			l[1]()
			done = true
		case "all": // the last snapshot choice confirms everything
			var k [2]int
			for _, b := range w.unconf {
				k[b.acc]++
			}
			i := 2 + k[0] + k[1] + (k[0]+1)*(k[1]+1) - 1
			l[i]()
			done = true
		case "flush":
			w.s.Prepare()
			if err := w.s.Commit(); err != nil {
				w.c.Fail("K01/commit", "%v", err)
			}
			w.s.AfterCommit()
			w.disk, w.diskSnaps = w.conf.clone(), append([]table(nil), w.snaps...)
			done = true
		}
		if !done {
			panic(n)
		}
	}
}

func main() {
	Silence()
	Main(Suite{Property: "K01", QuickBudget: 150 * time.Second, ThoroughBudget: 30 * time.Minute, Scenarios: func(tier string) []Scenario {
		d, e := 6, 4
		if tier == "thorough" {
			d, e = 7, 5
		}
		return []Scenario{
			{Name: "fresh", Bound: fmt.Sprintf("every sequence of %d operations on an empty store", d), Body: body(d, nil)},
			{Name: "flushed", Bound: fmt.Sprintf("every sequence of %d operations after three flushed snapshots and pending blocks of two accounts", e), Body: body(e, func(w *world) {
				run(w, "a", "a", "b", "all", "flush", "a", "b", "all", "flush", "b", "all", "flush", "a", "b")
			})},
			Asked(Scenario{Name: "fresh", Bound: fmt.Sprintf("every sequence of %d operations on an empty store", d-1), Body: body(d-1, nil)}),
			Asked(Scenario{Name: "flushed", Bound: fmt.Sprintf("every sequence of %d operations after three flushed snapshots and pending blocks of two accounts", e-1), Body: body(e-1, func(w *world) {
				run(w, "a", "a", "b", "all", "flush", "a", "b", "all", "flush", "b", "all", "flush", "a", "b")
			})}),
		}
	}})
}
