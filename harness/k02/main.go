// Property K02: the embedded ordered key-value database. Operation sequences, every crash point of the file
// operations of a history, every changed byte of its files, and record sizes around the block boundaries of the
// journal are enumerated on the real database; all reads are compared with a sorted map.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/comparer"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/filter"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/iterator"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/memdb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/storage"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type table map[string]string

func (t table) clone() table {
	r := make(table, len(t))
	for k, v := range t {
		r[k] = v
	}
	return r
}

func (t table) keys() []string {
	l := make([]string, 0, len(t))
	for k := range t {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type change struct {
	key, val string
	del      bool
}

func (t table) apply(l []change) {
	for _, c := range l {
		if c.del {
			delete(t, c.key)
		} else {
			t[c.key] = c.val
		}
	}
}

func batchOf(l []change) *leveldb.Batch {
	b := new(leveldb.Batch)
	for _, c := range l {
		if c.del {
			b.Delete([]byte(c.key))
		} else {
			b.Put([]byte(c.key), []byte(c.val))
		}
	}
	return b
}

// tiny makes memory tables, blocks, tables and levels so small that every path is taken by a few writes.
func tiny(variant int) *opt.Options {
	o := &opt.Options{
		WriteBuffer: 220, BlockSize: 48, BlockRestartInterval: 2, CompactionTableSize: 200, CompactionTotalSize: 120, CompactionTotalSizeMultiplier: 2,
		CompactionL0Trigger: 2, BlockCacheCapacity: 512, OpenFilesCacheCapacity: 3,
	}
	if variant == 1 {
		o.Filter = filter.NewBloomFilter(10)
		o.Compression = opt.NoCompression
		o.BlockRestartInterval = 1
		o.BlockCacheCapacity = -1
	}
	return o
}

var probes = []string{"", "\x00", "a", "a\x00", "ab", "abc", "b", "b\xff", "c", "\xff\xff", "zz"}

type reader interface {
	Get([]byte, *opt.ReadOptions) ([]byte, error)
	Has([]byte, *opt.ReadOptions) (bool, error)
	NewIterator(*util.Range, *opt.ReadOptions) iterator.Iterator
}

// readAll compares every kind of read with the map.
func readAll(c *C, what string, r reader, t table, more ...string) {
	keys := t.keys()
	for _, k := range append(append(append([]string(nil), probes...), keys...), more...) {
		want, there := t[k]
		got, err := r.Get([]byte(k), nil)
		if there && (err != nil || string(got) != want) || !there && err != leveldb.ErrNotFound {
			c.Fail("K02/get", "%s: key %q reads %q (%v), should be %q, present %v", what, k, short(string(got)), err, short(want), there)
		}
		if has, err := r.Has([]byte(k), nil); err != nil || has != there {
			c.Fail("K02/has", "%s: key %q: %v (%v), should be %v", what, k, has, err, there)
		}
	}
	walk(c, what, r, t, "", "", nil)
	walk(c, what, r, t, "a\x00", "b\xff", &util.Range{Start: []byte("a\x00"), Limit: []byte("b\xff")})
	walk(c, what, r, t, "ab", "ac", util.BytesPrefix([]byte("ab")))
	walk(c, what, r, t, "b", "", &util.Range{Start: []byte("b")})
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s...(%d bytes)", s[:40], len(s))
	}
	return s
}

func walk(c *C, what string, r reader, t table, from, to string, rg *util.Range) {
	var keys []string
	for _, k := range t.keys() {
		if k >= from && (to == "" || k < to) {
			keys = append(keys, k)
		}
	}
	it := r.NewIterator(rg, nil)
	defer it.Release()
	iterate(c, fmt.Sprintf("%s range %q..%q", what, from, to), it, t, keys)
}

func iterate(c *C, what string, it iterator.Iterator, t table, keys []string) {
	at := func(i int, op string, ok bool) {
		in := i >= 0 && i < len(keys)
		if ok != in || it.Valid() != in {
			c.Fail("K02/iterator", "%s: %s gives %v/%v at position %d of %q (%v)", what, op, ok, it.Valid(), i, keys, it.Error())
		}
		if ok && (string(it.Key()) != keys[i] || string(it.Value()) != t[keys[i]]) {
			c.Fail("K02/iterator", "%s: %s gives %q=%q at position %d, should be %q=%q", what, op, it.Key(), short(string(it.Value())), i, keys[i], short(t[keys[i]]))
		}
	}
	for i := 0; i <= len(keys); i++ {
		at(i, "next", it.Next())
	}
	if len(keys) > 0 {
		at(len(keys)-1, "prev at the end", it.Prev())
		at(len(keys), "next at the end", it.Next())
	}
	at(len(keys)-1, "last", it.Last())
	for i := len(keys) - 2; i >= -1; i-- {
		at(i, "prev", it.Prev())
	}
	if len(keys) > 0 {
		at(0, "next at the beginning", it.Next())
	}
	at(firstOf(keys), "first", it.First())
	for _, k := range append(append([]string(nil), probes...), keys...) {
		i := sort.SearchStrings(keys, k)
		at(i, fmt.Sprintf("seek %q", k), it.Seek([]byte(k)))
		if i < len(keys) {
			at(i+1, "next after seek", it.Next())
			if i+1 < len(keys) {
				at(i, "prev after next", it.Prev())
				at(i+1, "next after prev", it.Next())
			}
			it.Seek([]byte(k))
			at(i-1, "prev after seek", it.Prev())
			if i > 0 {
				at(i, "next after prev", it.Next())
			}
		}
	}
	if err := it.Error(); err != nil {
		c.Fail("K02/iterator", "%s: %v", what, err)
	}
}

func firstOf(keys []string) int {
	return 0
}

// ---- operation sequences ----

type held struct {
	what string
	r    reader
	t    table
	free func()
}

type world struct {
	c    *C
	o    *opt.Options
	st   storage.Storage
	db   *leveldb.DB
	t    table
	n    int
	held []held
	iter []func() // held iterators, checked once and released
	tr   *leveldb.Transaction
	trT  table
}

func (w *world) open() {
	d, err := leveldb.Open(w.st, w.o)
	if err != nil {
		w.c.Fail("K02/open", "%v", err)
	}
	w.db = d
}

func (w *world) release() {
	for _, h := range w.held {
		h.free()
	}
	for _, f := range w.iter {
		f()
	}
	w.held, w.iter = nil, nil
}

var shapes = []func(n int) []change{
	func(n int) []change { return []change{{key: "a", val: fmt.Sprint("v", n)}} },
	func(n int) []change { return []change{{key: "ab", val: strings.Repeat(fmt.Sprint(n), 60)}, {key: "b", val: ""}} },
	func(n int) []change { return []change{{key: "a", del: true}, {key: "b", val: fmt.Sprint("w", n)}} },
	func(n int) []change {
		return []change{{key: "", val: fmt.Sprint(n)}, {key: "b", del: true}, {key: "ab", val: "x"}, {key: "ab", del: true}, {key: "b\xff", val: strings.Repeat("r", 100+n)}}
	},
}

func (w *world) write(l []change) {
	var err error
	switch {
	case len(l) == 1 && l[0].del:
		err = w.db.Delete([]byte(l[0].key), nil)
	case len(l) == 1:
		err = w.db.Put([]byte(l[0].key), []byte(l[0].val), nil)
	default:
		err = w.db.Write(batchOf(l), nil)
	}
	if err != nil {
		w.c.Fail("K02/write", "%v", err)
	}
	w.t.apply(l)
}

func (w *world) step() {
	c := w.c
	var l []func()
	if w.tr == nil {
		for i := range shapes {
			i := i
			l = append(l, func() {
				c.Op("write %d", i)
				w.n++
				w.write(shapes[i](w.n))
			})
		}
		l = append(l, func() {
			c.Op("compact")
			if err := w.db.CompactRange(util.Range{}); err != nil {
				c.Fail("K02/compact", "%v", err)
			}
		}, func() {
			c.Op("reopen")
			w.release()
			if err := w.db.Close(); err != nil {
				c.Fail("K02/close", "%v", err)
			}
			w.open()
		}, func() {
			c.Op("begin transaction")
			tr, err := w.db.OpenTransaction()
			if err != nil {
				c.Fail("K02/transaction", "%v", err)
			}
			w.tr, w.trT = tr, w.t.clone()
		})
		if len(w.held) < 2 {
			l = append(l, func() {
				c.Op("snapshot")
				s, err := w.db.GetSnapshot()
				if err != nil {
					c.Fail("K02/snapshot", "%v", err)
				}
				w.held = append(w.held, held{fmt.Sprintf("snapshot %d", len(w.held)), s, w.t.clone(), s.Release})
			})
		}
		if len(w.held) > 0 {
			l = append(l, func() {
				c.Op("release")
				w.held[0].free()
				w.held = w.held[1:]
			})
		}
		if len(w.iter) == 0 {
			l = append(l, func() {
				c.Op("iterator")
				it, t := w.db.NewIterator(nil, nil), w.t.clone()
				moved := len(t) > 0 && it.Next()
				w.iter = append(w.iter, func() {
					if moved && (string(it.Key()) != t.keys()[0] || string(it.Value()) != t[t.keys()[0]]) {
						c.Fail("K02/iterator", "a held iterator moved to %q=%q", it.Key(), it.Value())
					}
					it.First()
					it.Prev()
					iterate(c, "held iterator", it, t, t.keys())
					it.Release()
				})
			})
		}
	} else {
		for i := range shapes[:3] {
			i := i + 1
			l = append(l, func() {
				c.Op("transaction writes %d", i)
				w.n++
				ch := shapes[i](w.n)
				if i%2 == 0 {
					for _, x := range ch {
						if x.del {
							w.tr.Delete([]byte(x.key), nil)
						} else {
							w.tr.Put([]byte(x.key), []byte(x.val), nil)
						}
					}
				} else if err := w.tr.Write(batchOf(ch), nil); err != nil {
					c.Fail("K02/transaction", "%v", err)
				}
				w.trT.apply(ch)
			})
		}
		l = append(l, func() {
			c.Op("commit")
			if err := w.tr.Commit(); err != nil {
				c.Fail("K02/commit", "%v", err)
			}
			w.t, w.tr = w.trT, nil
		}, func() {
			c.Op("discard")
			w.tr.Discard()
			w.tr = nil
		})
	}
	l[c.Choose(len(l))]()
}

func (w *world) check() {
	readAll(w.c, "database", w.db, w.t)
	if w.tr != nil {
		readAll(w.c, "transaction", w.tr, w.trT)
	}
	for _, h := range w.held {
		readAll(w.c, h.what, h.r, h.t)
	}
	w.c.State()
}

func (w *world) end() {
	if w.tr != nil {
		w.tr.Discard()
		w.tr = nil
	}
	for i := 0; i < 2 && len(w.held)+len(w.iter) > 0; i++ {
		if err := w.db.CompactRange(util.Range{}); err != nil {
			w.c.Fail("K02/compact", "%v", err)
		}
		w.check()
	}
	w.release()
	w.check()
	if err := w.db.CompactRange(util.Range{}); err != nil {
		w.c.Fail("K02/compact", "%v", err)
	}
	w.check()
	if err := w.db.Close(); err != nil {
		w.c.Fail("K02/close", "%v", err)
	}
	w.open()
	w.check()
	w.db.Close()
}

func sequences(d int, full bool) Scenario {
	name := "sequences"
	if full {
		name = "sequences-on-tables"
	}
	return Scenario{Name: name, Bound: fmt.Sprintf("every sequence of %d operations", d), Body: func(c *C) {
		w := &world{c: c, o: tiny(c.Choose(2)), st: storage.NewMemStorage(), t: table{}}
		w.open()
		c.Defer(func() { w.db.Close() })
		if full {
			for i := 0; i < 12; i++ {
				w.n++
				w.write(shapes[i%4](w.n))
				w.write([]change{{key: string(rune('d' + i)), val: strings.Repeat("q", 30+i)}})
				if i == 2 || i == 7 {
					w.db.CompactRange(util.Range{})
				}
			}
		}
		for i := 1; i <= d; i++ {
			w.step()
			if c.Fresh() || i == d {
				w.check()
			}
		}
		w.end()
	}}
}

// ---- crash points ----

// disk is a storage that lists every file operation, so that the files at any moment can be rebuilt.
type fileOp struct {
	kind   string // create write remove rename meta mark
	fd, to storage.FileDesc
	data   []byte
	mark   int // begin: n, acknowledged: -n
}

type disk struct {
	storage.Storage
	log *[]fileOp
	mu  chan struct{}
}

func newDisk(s storage.Storage) *disk {
	return &disk{Storage: s, log: &[]fileOp{}, mu: make(chan struct{}, 1)}
}

func (d *disk) add(o fileOp, f func() error) error {
	d.mu <- struct{}{}
	defer func() { <-d.mu }()
	if err := f(); err != nil {
		return err
	}
	*d.log = append(*d.log, o)
	return nil
}
func (d *disk) marker(n int) { d.add(fileOp{kind: "mark", mark: n}, func() error { return nil }) }
func (d *disk) SetMeta(fd storage.FileDesc) error {
	return d.add(fileOp{kind: "meta", fd: fd}, func() error { return d.Storage.SetMeta(fd) })
}
func (d *disk) Remove(fd storage.FileDesc) error {
	return d.add(fileOp{kind: "remove", fd: fd}, func() error { return d.Storage.Remove(fd) })
}
func (d *disk) Rename(a, b storage.FileDesc) error {
	return d.add(fileOp{kind: "rename", fd: a, to: b}, func() error { return d.Storage.Rename(a, b) })
}
func (d *disk) Create(fd storage.FileDesc) (storage.Writer, error) {
	var w storage.Writer
	err := d.add(fileOp{kind: "create", fd: fd}, func() (err error) {
		w, err = d.Storage.Create(fd)
		return
	})
	if err != nil {
		return nil, err
	}
	return &diskWriter{Writer: w, d: d, fd: fd}, nil
}

type diskWriter struct {
	storage.Writer
	d  *disk
	fd storage.FileDesc
}

func (w *diskWriter) Sync() error {
	return w.d.add(fileOp{kind: "sync", fd: w.fd}, w.Writer.Sync)
}

func (w *diskWriter) Write(b []byte) (n int, err error) {
	err = w.d.add(fileOp{kind: "write", fd: w.fd, data: append([]byte(nil), b...)}, func() error {
		n, err = w.Writer.Write(b)
		return err
	})
	return
}

// synced makes the files as a loss of power after the first p operations may leave them: without what was not synced.
func synced(log []fileOp, p int) (map[storage.FileDesc][]byte, *storage.FileDesc) {
	files, meta := rebuild(nil, nil, log, p, -1)
	safe := map[storage.FileDesc]int{}
	length := map[storage.FileDesc]int{}
	for _, o := range log[:p] {
		switch o.kind {
		case "create":
			length[o.fd], safe[o.fd] = 0, 0
		case "write":
			length[o.fd] += len(o.data)
		case "sync":
			safe[o.fd] = length[o.fd]
		case "rename":
			length[o.to], safe[o.to] = length[o.fd], safe[o.fd]
		}
	}
	for fd := range files {
		files[fd] = files[fd][:safe[fd]]
	}
	return files, meta
}

// rebuild makes the files as they are after the first p operations, the last write cut to its first torn bytes.
func rebuild(base map[storage.FileDesc][]byte, meta *storage.FileDesc, log []fileOp, p, torn int) (map[storage.FileDesc][]byte, *storage.FileDesc) {
	files := map[storage.FileDesc][]byte{}
	for k, v := range base {
		files[k] = v
	}
	for i, o := range log[:p] {
		switch o.kind {
		case "create":
			files[o.fd] = nil
		case "write":
			b := o.data
			if i == p-1 && torn >= 0 {
				b = b[:torn]
			}
			if old, ok := files[o.fd]; ok {
				files[o.fd] = append(old[:len(old):len(old)], b...)
			}
		case "remove":
			delete(files, o.fd)
		case "rename":
			files[o.to] = files[o.fd]
			delete(files, o.fd)
		case "meta":
			fd := o.fd
			meta = &fd
		}
	}
	return files, meta
}

func put(files map[storage.FileDesc][]byte, meta *storage.FileDesc) storage.Storage {
	st := storage.NewMemStorage()
	for fd, b := range files {
		w, err := st.Create(fd)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.Close()
	}
	if meta != nil {
		if err := st.SetMeta(*meta); err != nil {
			panic(err)
		}
	}
	return st
}

type script []string

// play runs a script, marks the beginning and the acknowledgement of each write, and returns the writes.
func play(c *C, st *disk, o *opt.Options, s script) (writes [][]change) {
	d, err := leveldb.Open(st, o)
	if err != nil {
		c.Fail("K02/open", "%v", err)
	}
	n := 0
	for _, x := range s {
		switch x[0] {
		case 'w', 's', 't':
			l := shapes[int(x[1]-'0')](n + 1)
			n++
			writes = append(writes, l)
			st.marker(n)
			if x[0] == 't' {
				tr, err := d.OpenTransaction()
				if err != nil {
					c.Fail("K02/transaction", "%v", err)
				}
				tr.Write(batchOf(l), nil)
				err = tr.Commit()
				if err != nil {
					c.Fail("K02/commit", "%v", err)
				}
			} else if err := d.Write(batchOf(l), &opt.WriteOptions{Sync: x[0] == 's'}); err != nil {
				c.Fail("K02/write", "%v", err)
			}
			st.marker(-n)
		case 'c':
			if err := d.CompactRange(util.Range{}); err != nil {
				c.Fail("K02/compact", "%v", err)
			}
		case 'r':
			if err := d.Close(); err != nil {
				c.Fail("K02/close", "%v", err)
			}
			if d, err = leveldb.Open(st, o); err != nil {
				c.Fail("K02/open", "%v", err)
			}
		}
	}
	if err := d.Close(); err != nil {
		c.Fail("K02/close", "%v", err)
	}
	return
}

// states lists the contents allowed after the first p operations: all acknowledged writes, and perhaps the one begun.
func states(writes [][]change, log []fileOp, p int) []table {
	begun, acked := 0, 0
	for _, o := range log[:p] {
		if o.kind == "mark" {
			if o.mark > 0 {
				begun = o.mark
			} else {
				acked = -o.mark
			}
		}
	}
	t := table{}
	for _, l := range writes[:acked] {
		t.apply(l)
	}
	r := []table{t}
	for _, l := range writes[acked:begun] {
		t = t.clone()
		t.apply(l)
		r = append(r, t)
	}
	return r
}

// same reports which of the allowed contents the database holds; all reads have to agree with it.
func same(c *C, what string, d reader, allowed []table) table {
	it := d.NewIterator(nil, nil)
	have := table{}
	for it.Next() {
		have[string(it.Key())] = string(it.Value())
	}
	err := it.Error()
	it.Release()
	if err != nil {
		c.Fail("K02/recovered-read", "%s: %v", what, err)
	}
	for _, t := range allowed {
		if fmt.Sprint(t) == fmt.Sprint(have) {
			readAll(c, what, d, t)
			return t
		}
	}
	c.Fail("K02/recovery", "%s: the database holds %q, should be %q", what, have, allowed)
	return nil
}

var scripts = []script{
	{"w0", "w1", "w2", "w3", "w1", "w0"},
	{"w0", "w1", "w3", "c", "w2", "w1", "c", "w3"},
	{"w1", "r", "w3", "w2", "r", "w0", "c", "r", "w1"},
	{"s0", "t1", "w2", "t3", "c", "s1", "t0"},
	{"s0", "s1", "s2", "s3", "t1", "c", "s0", "r", "s1", "s3", "t0", "s2"},
	{"w3", "w1", "w3", "w1", "w3", "w1", "w3", "w1", "w3", "r", "w2", "w1"},
}

func crashes(nested bool) Scenario {
	return Scenario{Name: "crashes", Bound: fmt.Sprintf("every file operation and torn write of %d histories, recovered, written to and recovered again; recovery itself crashing: %v", len(scripts), nested), Body: func(c *C) {
		variant := c.Choose(2)
		s := scripts[c.Choose(len(scripts))]
		part := c.Choose(8)
		st := newDisk(storage.NewMemStorage())
		c.Op("variant %d script %v part %d", variant, s, part)
		writes := play(c, st, tiny(variant), s)
		log := *st.log
		allSynced := true
		for _, x := range s {
			allSynced = allSynced && x[0] != 'w'
		}
		try := func(p, torn int) {
			files, meta := rebuild(nil, nil, log, p, torn)
			if torn == -2 {
				files, meta = synced(log, p)
			}
			what := fmt.Sprintf("crash after %d of %d file operations (torn %d)", p, len(log), torn)
			cs := newDisk(put(files, meta))
			d, err := leveldb.Open(cs, tiny(variant))
			if err != nil {
				c.Fail("K02/recover", "%s: %v", what, err)
			}
			allowed := states(writes, log, p)
			t := same(c, what, d, allowed).clone()
			// the recovered database goes on working and keeps what it has
			l := shapes[1](77)
			if err := d.Write(batchOf(l), nil); err != nil {
				c.Fail("K02/write", "%s: %v", what, err)
			}
			rlog := append([]fileOp(nil), *cs.log...)
			t.apply(l)
			readAll(c, what+", written to", d, t)
			d.Close()
			d, err = leveldb.Open(cs, tiny(1-variant))
			if err != nil {
				c.Fail("K02/recover", "%s, again: %v", what, err)
			}
			readAll(c, what+", reopened", d, t)
			d.Close()
			c.State()
			c.AddTransitions(1)
			if nested {
				for q := 0; q < len(rlog); q++ {
					f2, m2 := rebuild(files, meta, rlog, q, -1)
					w2 := fmt.Sprintf("%s, then after %d file operations of the recovery", what, q)
					d, err := leveldb.Open(put(f2, m2), tiny(variant))
					if err != nil {
						c.Fail("K02/recover", "%s: %v", w2, err)
					}
					a := allowed
					for _, x := range allowed {
						y := x.clone()
						y.apply(l)
						a = append(a[:len(a):len(a)], y)
					}
					same(c, w2, d, a)
					d.Close()
					c.State()
					c.AddTransitions(1)
				}
			}
		}
		created := 0 // a database whose creation was cut off has to be created again
		for log[created].kind != "meta" {
			created++
		}
		for p := created + 1 + part; p <= len(log); p += 8 {
			try(p, -1)
			if allSynced {
				try(p, -2) // loss of power
			}
			if p > 0 && log[p-1].kind == "write" {
				n := len(log[p-1].data)
				for i := 0; i < n; i++ {
					if n > 40 && i > 12 && i < n-8 && i%7 != 0 {
						continue
					}
					try(p, i)
				}
			}
		}
	}}
}

// ---- damaged files ----

// damage: with any byte changed the database never shows a value that was not written under its key, and damage in a
// table never hides or revives anything silently.
var damage = Scenario{Name: "damaged-files", Bound: "every byte of every file of 3 histories changed in 2 ways", Body: func(c *C) {
	variant, s, part := c.Choose(2), scripts[1+c.Choose(3)], c.Choose(8)
	st := newDisk(storage.NewMemStorage())
	writes := play(c, st, tiny(variant), s)
	ever := map[string]bool{}
	final := table{}
	for _, l := range writes {
		final.apply(l)
		for _, x := range l {
			ever[x.key+"="+x.val] = !x.del || ever[x.key+"="+x.val]
		}
	}
	files, meta := rebuild(nil, nil, *st.log, len(*st.log), -1)
	var fds []storage.FileDesc
	for fd := range files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool { return fds[i].String() < fds[j].String() })
	n := 0
	for _, fd := range fds {
		good := files[fd]
		for i := range good {
			for _, x := range []byte{0x01, 0x80} {
				if n++; n%8 != part {
					continue
				}
				bad := append([]byte(nil), good...)
				bad[i] ^= x
				files[fd] = bad
				what := fmt.Sprintf("byte %d of %s changed by %#x", i, fd, x)
				c.State()
				c.AddTransitions(1)
				d, err := leveldb.Open(put(files, meta), tiny(variant))
				if err != nil {
					c.Count("refused", 1)
					continue
				}
				for _, k := range append(append([]string(nil), probes...), final.keys()...) {
					v, err := d.Get([]byte(k), nil)
					want, there := final[k]
					switch {
					case err != nil && err != leveldb.ErrNotFound:
						c.Count("errors", 1)
					case err == nil && !ever[k+"="+string(v)]:
						c.Fail("K02/fabricated", "%s: key %q reads %q, which was never written", what, k, short(string(v)))
					case fd.Type == storage.TypeTable && ((err == nil) != there || string(v) != want):
						c.Fail("K02/silent-damage", "%s: key %q reads %q (%v), should be %q or an error", what, k, short(string(v)), err, short(want))
					}
				}
				it := d.NewIterator(nil, nil)
				m := table{}
				for it.Next() {
					k, v := string(it.Key()), string(it.Value())
					if !ever[k+"="+v] {
						c.Fail("K02/fabricated", "%s: the iterator gives %q=%q, which was never written", what, k, short(v))
					}
					m[k] = v
				}
				if it.Error() == nil && fd.Type == storage.TypeTable && fmt.Sprint(m) != fmt.Sprint(final) {
					c.Fail("K02/silent-damage", "%s: the iterator gives %q without an error", what, m)
				}
				it.Release()
				d.Close()
			}
		}
		files[fd] = good
	}
}}

// ---- sizes around the journal's blocks ----

var journalSizes = Scenario{Name: "journal-blocks", Bound: "a first record ending at each of the last 48 and first 24 bytes of a 32 KiB journal block, then a record of one of 6 sizes", Body: func(c *C) {
	first := 32768 - 48 + c.Choose(72) - 30
	second := []int{0, 1, 20, 32750, 32768, 70000}[c.Choose(6)]
	st := storage.NewMemStorage()
	o := &opt.Options{WriteBuffer: 1 << 20}
	t := table{}
	d, err := leveldb.Open(st, o)
	if err != nil {
		c.Fail("K02/open", "%v", err)
	}
	for i, n := range []int{first, second, 5} {
		k, v := fmt.Sprintf("k%d", i), strings.Repeat(string(rune('a'+i)), n)
		if err := d.Put([]byte(k), []byte(v), nil); err != nil {
			c.Fail("K02/write", "%v", err)
		}
		t[k] = v
	}
	for i := 0; i < 2; i++ {
		d.Close()
		if d, err = leveldb.Open(st, o); err != nil {
			c.Fail("K02/recover", "sizes %d, %d: %v", first, second, err)
		}
		readAll(c, fmt.Sprintf("sizes %d, %d", first, second), d, t)
		c.State()
	}
	d.Close()
}}

// ---- many keys in tables ----

var tables = Scenario{Name: "tables", Bound: "0 to 40 keys of three families in 3 block shapes, compacted in part and in whole", Body: func(c *C) {
	n, family, shape := c.Choose(41), c.Choose(3), c.Choose(3)
	o := tiny(shape % 2)
	if shape == 2 {
		o = &opt.Options{Filter: filter.NewBloomFilter(4), BlockSize: 200, BlockRestartInterval: 3}
	}
	d, err := leveldb.Open(storage.NewMemStorage(), o)
	if err != nil {
		c.Fail("K02/open", "%v", err)
	}
	c.Defer(func() { d.Close() })
	t := table{}
	key := func(i int) string {
		switch family {
		case 0:
			return strings.Repeat("a", i)
		case 1:
			return fmt.Sprintf("prefix%03d\xff\xff", i)
		}
		return string([]byte{byte(i * 6), 0, byte(i)})
	}
	var extra []string
	for i := 0; i < n; i++ {
		j := (i * 17) % 41
		k, v := key(j), strings.Repeat(fmt.Sprint(j), j%9)
		if err := d.Put([]byte(k), []byte(v), nil); err != nil {
			c.Fail("K02/write", "%v", err)
		}
		t[k] = v
		extra = append(extra, k+"\x00", k+"\xff")
		if j%5 == 4 {
			k := key((j * 3) % 41)
			d.Delete([]byte(k), nil)
			delete(t, k)
			extra = append(extra, k)
		}
		if i == 20 {
			d.CompactRange(util.Range{})
		}
	}
	readAll(c, "before compaction", d, t, extra...)
	if err := d.CompactRange(util.Range{Start: []byte(key(10)), Limit: []byte(key(20))}); err != nil {
		c.Fail("K02/compact", "%v", err)
	}
	readAll(c, "after a partial compaction", d, t, extra...)
	if err := d.CompactRange(util.Range{}); err != nil {
		c.Fail("K02/compact", "%v", err)
	}
	readAll(c, "after compaction", d, t, extra...)
	c.State()
}}

// ---- batches and the memory table ----

type replay struct{ l []change }

func (r *replay) Put(k, v []byte) { r.l = append(r.l, change{key: string(k), val: string(v)}) }
func (r *replay) Delete(k []byte) { r.l = append(r.l, change{key: string(k), del: true}) }

var batches = Scenario{Name: "batches", Bound: "every batch of up to 4 changes of 6 kinds: replayed, dumped, loaded, appended, and every cut of its dump", Body: func(c *C) {
	kinds := []change{{key: "", val: ""}, {key: "k", val: "v"}, {key: "k", del: true}, {key: strings.Repeat("K", 130), val: strings.Repeat("V", 300)}, {key: "z", val: ""}, {key: "", del: true}}
	n := c.Choose(5)
	var l []change
	for i := 0; i < n; i++ {
		l = append(l, kinds[c.Choose(len(kinds))])
	}
	b := batchOf(l)
	is := func(what string, b *leveldb.Batch, want []change) {
		r := &replay{}
		if err := b.Replay(r); err != nil || fmt.Sprint(r.l) != fmt.Sprint(want) || b.Len() != len(want) {
			c.Fail("K02/batch", "%s: %d entries %v (%v), should be %v", what, b.Len(), r.l, err, want)
		}
	}
	is("batch", b, l)
	dump := append([]byte(nil), b.Dump()...)
	x := new(leveldb.Batch)
	x.Put([]byte("old"), []byte("old"))
	if err := x.Load(append([]byte(nil), dump...)); err != nil {
		c.Fail("K02/batch", "load: %v", err)
	}
	is("loaded batch", x, l)
	y := batchOf(l)
	y.Append(x)
	is("appended batch", y, append(append([]change(nil), l...), l...))
	y.Reset()
	is("reset batch", y, nil)
	y.Put([]byte("n"), []byte("m"))
	is("reused batch", y, []change{{key: "n", val: "m"}})
	// a cut dump is refused, or is a shorter batch that ends at a boundary
	for i := 0; i < len(dump); i++ {
		z := new(leveldb.Batch)
		if err := z.Load(append([]byte(nil), dump[:i]...)); err != nil {
			continue
		}
		if z.Len() > len(l) {
			c.Fail("K02/batch", "a dump cut to %d bytes loads as %d entries", i, z.Len())
		}
		is(fmt.Sprintf("dump cut to %d bytes", i), z, l[:z.Len()])
	}
	c.State()
}}

type memReader struct{ m *memdb.DB }

func (r memReader) Get(k []byte, _ *opt.ReadOptions) ([]byte, error) {
	v, err := r.m.Get(k)
	if err == memdb.ErrNotFound {
		err = leveldb.ErrNotFound
	}
	return v, err
}
func (r memReader) Has(k []byte, _ *opt.ReadOptions) (bool, error) { return r.m.Contains(k), nil }
func (r memReader) NewIterator(g *util.Range, _ *opt.ReadOptions) iterator.Iterator {
	return r.m.NewIterator(g)
}

func memory(d int) Scenario {
	return Scenario{Name: "memory-table", Bound: fmt.Sprintf("every sequence of %d puts, deletes and resets over 4 keys", d), Body: func(c *C) {
		m, t := memdb.New(comparer.DefaultComparer, 10), table{}
		keys := []string{"", "a", "a\x00", "b"}
		size := 0
		for i := 0; i < d; i++ {
			x := c.Choose(len(keys)*2 + 1)
			switch {
			case x == 2*len(keys):
				c.Op("reset")
				m.Reset()
				t = table{}
			case x < len(keys):
				k, v := keys[x], strings.Repeat("v", i)
				c.Op("put %q", k)
				if err := m.Put([]byte(k), []byte(v)); err != nil {
					c.Fail("K02/memory", "%v", err)
				}
				old := t.clone()
				t[k] = v
				if i == d-2 {
					// a copy keeps what it had
					x := m.Copy()
					readAll(c, "copy", memReader{x}, t)
					x.Put([]byte("zz"), []byte("n"))
					x.Delete([]byte(k))
					delete(old, k)
					old["zz"] = "n"
					readAll(c, "changed copy", memReader{x}, old)
				}
			default:
				k := keys[x-len(keys)]
				c.Op("delete %q", k)
				_, there := t[k]
				if err := m.Delete([]byte(k)); (err == nil) != there {
					c.Fail("K02/memory", "delete %q: %v, present %v", k, err, there)
				}
				delete(t, k)
			}
			size = 0
			for k, v := range t {
				size += len(k) + len(v)
			}
			if m.Len() != len(t) || m.Size() != size {
				c.Fail("K02/memory", "%d entries of %d bytes, should be %d of %d", m.Len(), m.Size(), len(t), size)
			}
			readAll(c, "memory table", memReader{m}, t)
			for _, k := range probes {
				l := t.keys()
				i := sort.SearchStrings(l, k)
				rk, rv, err := m.Find([]byte(k))
				if (err == nil) != (i < len(l)) || err == nil && (string(rk) != l[i] || string(rv) != t[l[i]]) {
					c.Fail("K02/memory", "find %q gives %q=%q (%v)", k, rk, rv, err)
				}
			}
		}
		c.State()
	}}
}

// ---- files on disk ----

var files = Scenario{Name: "files", Bound: "every sequence of 4 writes, reopenings, second openings, leftover temporary files and recoveries on a directory", Body: func(c *C) {
	dir := filepath.Join(MkTemp("k02"), "db")
	c.Defer(func() { os.RemoveAll(filepath.Dir(dir)) })
	t := table{}
	if _, err := leveldb.OpenFile(dir, &opt.Options{ErrorIfMissing: true}); err == nil {
		c.Fail("K02/missing", "a missing database was opened")
	}
	d, err := leveldb.OpenFile(dir, tiny(0))
	if err != nil {
		c.Fail("K02/open", "%v", err)
	}
	c.Defer(func() { d.Close() })
	reopen := func(f func(string, *opt.Options) (*leveldb.DB, error)) {
		if d, err = f(dir, tiny(0)); err != nil {
			c.Fail("K02/open", "%v", err)
		}
	}
	for i := 0; i < 4; i++ {
		switch c.Choose(6) {
		case 0, 1:
			l := shapes[1+i%3](i)
			c.Op("write")
			if err := d.Write(batchOf(l), nil); err != nil {
				c.Fail("K02/write", "%v", err)
			}
			t.apply(l)
		case 2:
			c.Op("reopen")
			d.Close()
			reopen(leveldb.OpenFile)
		case 3:
			c.Op("open twice")
			if x, err := leveldb.OpenFile(dir, tiny(0)); err == nil {
				x.Close()
				c.Fail("K02/lock", "the database was opened twice")
			}
		case 4:
			c.Op("leftovers of a crash")
			d.Close()
			ioutil.WriteFile(filepath.Join(dir, "000900.tmp"), []byte("x"), 0644)
			ioutil.WriteFile(filepath.Join(dir, "000901.ldb"), []byte("junk"), 0644)
			reopen(leveldb.OpenFile)
		case 5:
			c.Op("recover from the tables")
			d.CompactRange(util.Range{})
			d.Close()
			l, _ := filepath.Glob(filepath.Join(dir, "MANIFEST-*"))
			for _, f := range l {
				os.Remove(f)
			}
			os.Remove(filepath.Join(dir, "CURRENT"))
			reopen(leveldb.RecoverFile)
		}
		readAll(c, "directory", d, t)
		c.State()
	}
}}

// ---- concurrent writers ----

// gate holds back the first journal write until the other writers are queued, so that they are merged.
type gate struct {
	*disk
	armed   chan struct{}
	waiting chan struct{}
	open    chan struct{}
}

type gateWriter struct {
	storage.Writer
	g *gate
}

func (g *gate) Create(fd storage.FileDesc) (storage.Writer, error) {
	w, err := g.disk.Create(fd)
	if err != nil || fd.Type != storage.TypeJournal {
		return w, err
	}
	return &gateWriter{w, g}, nil
}

func (w *gateWriter) Write(b []byte) (int, error) {
	select {
	case <-w.g.armed:
		close(w.g.waiting)
		<-w.g.open
	default:
	}
	return w.Writer.Write(b)
}

var writers = Scenario{Name: "concurrent-writers", Bound: "one writer held in the journal while 3 others queue, each with one of 5 writes, merged or not, then a crash at every file operation", Body: func(c *C) {
	noMerge := c.Bool()
	o := tiny(0)
	o.WriteBuffer = []int{4096, 260}[c.Choose(2)]
	o.NoWriteMerge = noMerge
	g := &gate{disk: newDisk(storage.NewMemStorage()), armed: make(chan struct{}, 1), waiting: make(chan struct{}), open: make(chan struct{})}
	d, err := leveldb.Open(g, o)
	if err != nil {
		c.Fail("K02/open", "%v", err)
	}
	kinds := func(i, k int) []change {
		key := fmt.Sprint("k", i)
		switch k {
		case 0:
			return []change{{key: key, val: "one"}}
		case 1:
			return []change{{key: key, val: "x"}, {key: key + "b", val: strings.Repeat("y", 90)}, {key: key, del: true}, {key: "shared", val: key}}
		case 2:
			return []change{{key: "old", del: true}}
		case 3:
			return []change{{key: key, val: ""}, {key: "shared", val: key}}
		}
		return []change{{key: key, val: strings.Repeat("z", 200)}}
	}
	base := []change{{key: "old", val: "o"}}
	if err := d.Write(batchOf(base), nil); err != nil {
		c.Fail("K02/write", "%v", err)
	}
	writes := [][]change{kinds(0, 1)}
	for i := 1; i < 4; i++ {
		writes = append(writes, kinds(i, c.Choose(5)))
	}
	c.Op("writes %v", writes)
	errs := make(chan error, 4)
	write := func(i int, l []change) {
		g.marker(i + 1)
		var err error
		switch {
		case len(l) == 1 && l[0].del:
			err = d.Delete([]byte(l[0].key), &opt.WriteOptions{Sync: i%2 == 0})
		case len(l) == 1:
			err = d.Put([]byte(l[0].key), []byte(l[0].val), nil)
		default:
			err = d.Write(batchOf(l), nil)
		}
		g.marker(-i - 1)
		errs <- err
	}
	g.armed <- struct{}{}
	go write(0, writes[0])
	<-g.waiting
	for i := 1; i < 4; i++ {
		i := i
		go write(i, writes[i])
	}
	time.Sleep(2 * time.Millisecond) // only makes merging likely
	close(g.open)
	for range writes {
		if err := <-errs; err != nil {
			c.Fail("K02/write", "%v", err)
		}
	}
	all := map[int]bool{0: true, 1: true, 2: true, 3: true}
	// outcomes: the writes applied in some order
	var outcomes func(acked, begun map[int]bool) []table
	outcomes = func(acked, begun map[int]bool) (r []table) {
		var rec func(t table, used map[int]bool)
		seen := map[string]bool{}
		rec = func(t table, used map[int]bool) {
			ok := true
			for i := range acked {
				ok = ok && used[i]
			}
			if ok && !seen[fmt.Sprint(t)] {
				seen[fmt.Sprint(t)] = true
				r = append(r, t)
			}
			for i := range writes {
				if begun[i] && !used[i] {
					x := t.clone()
					x.apply(writes[i])
					u := map[int]bool{i: true}
					for k := range used {
						u[k] = true
					}
					rec(x, u)
				}
			}
		}
		t := table{}
		t.apply(base)
		rec(t, map[int]bool{})
		return
	}
	final := same(c, "after the writers", d, outcomes(all, all))
	c.State()
	d.Close()
	log := *g.log
	var from int
	for i, o := range log {
		if o.kind == "mark" {
			from = i
			break
		}
	}
	for p := from; p <= len(log); p++ {
		begun, acked := map[int]bool{}, map[int]bool{}
		for _, o := range log[:p] {
			if o.kind == "mark" && o.mark > 0 {
				begun[o.mark-1] = true
			} else if o.kind == "mark" {
				acked[-o.mark-1] = true
			}
		}
		allowed := outcomes(acked, begun)
		if p == len(log) {
			allowed = []table{final}
		}
		x, err := leveldb.Open(put(rebuild(nil, nil, log, p, -1)), tiny(1))
		if err != nil {
			c.Fail("K02/recover", "%v", err)
		}
		same(c, fmt.Sprintf("crash after %d of %d file operations", p, len(log)), x, allowed)
		x.Close()
		c.State()
		c.AddTransitions(1)
	}
}}

func main() {
	Silence()
	Main(Suite{Property: "K02", QuickBudget: 200 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d, e, m, nested := 4, 3, 5, false
		if tier == "thorough" {
			d, e, m, nested = 6, 5, 6, true
		}
		return []Scenario{sequences(d, false), sequences(e, true), crashes(nested), damage, journalSizes, tables, writers, batches, memory(m), files, Asked(sequences(d-1, false)), Asked(sequences(e-1, true))}
	}})
}
