// Property L11: the block files. Writes, rollbacks, flush phases, restarts and crashes at every byte of a flush are
// enumerated on the real file manager and the real block store; what is read is compared with a flat byte string and
// with the list of written chunks.
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"

	fmgr "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

// disk is the content of a directory of block files.
type disk map[int][]byte

func readDisk(dir string) disk {
	d := disk{}
	l, err := ioutil.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, f := range l {
		id, err := strconv.Atoi(f.Name()[1:])
		if err != nil {
			panic(err)
		}
		b, err := ioutil.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			panic(err)
		}
		d[id] = b
	}
	return d
}

func (d disk) clone() disk {
	r := disk{}
	for k, v := range d {
		r[k] = append([]byte(nil), v...)
	}
	return r
}

func (d disk) write(dir string) {
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	for k, v := range d {
		if err := ioutil.WriteFile(filepath.Join(dir, "f"+strconv.Itoa(k)), v, 0600); err != nil {
			panic(err)
		}
	}
}

// crashPoints lists the disks a crash can leave while a flush of buf at start, cutting the files at target, runs:
// the bytes go out in order, then files above the target go, then the last file is cut.
func crashPoints(before disk, f int, start, target int, buf []byte, every int) (l []disk, name []string) {
	add := func(d disk, n string) { l = append(l, d.clone()); name = append(name, n) }
	d := before.clone()
	add(d, "nothing written")
	for i, b := range buf {
		p := start + i
		id, o := p/f+1, p%f
		if i == 0 || o == 0 {
			if _, ok := d[id]; !ok {
				d[id] = []byte{}
				add(d, fmt.Sprintf("file %d created", id))
			} else if o == 0 {
				x := d.clone()
				x[id] = nil
				add(x, fmt.Sprintf("file %d emptied", id))
			}
		}
		for len(d[id]) < o {
			d[id] = append(d[id], 0)
		}
		if len(d[id]) == o {
			d[id] = append(d[id], b)
		} else {
			d[id][o] = b
		}
		if i%every == every-1 || i == len(buf)-1 || o == f-1 {
			add(d, fmt.Sprintf("%d bytes written", i+1))
		}
	}
	var ids []int
	for id := range d {
		ids = append(ids, id)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ids)))
	for _, id := range ids {
		if id > target/f+1 {
			delete(d, id)
			add(d, fmt.Sprintf("file %d removed", id))
		}
	}
	return
}

type buffer struct {
	b   []byte
	err error
}

func (b *buffer) Write(x []byte) error { b.b = append(b.b, x...); return nil }
func (b *buffer) WriteError(err error) { b.err = err }
func (b *buffer) Close() error         { return nil }

// files is a file manager with its model.
type files struct {
	c        *C
	size     int
	cache    int
	dir      string
	fm       *fmgr.FileManager
	data     []byte // what was written
	cut      []int  // offsets of writes
	disk     []byte // what was flushed
	n        int
	prepared bool
	start    *fmgr.Location
	target   *fmgr.Location
	flush    []byte
	image    []byte // data at preparation
}

func (x *files) pos(l *fmgr.Location) int { return int(l.FileId-1)*x.size + int(l.Offset) }
func (x *files) loc(p int) *fmgr.Location {
	return fmgr.NewLocation(uint64(p/x.size+1), int64(p%x.size))
}

func (x *files) open() {
	fm, err := fmgr.NewFileManager(x.dir, int64(x.size), x.cache)
	if err != nil {
		x.c.Fail("L11/open", "%v", err)
	}
	x.fm = fm
}

func (x *files) close() {
	if x.fm != nil {
		x.fm.Close()
		x.fm = nil
	}
}

func (x *files) write(n int) {
	x.c.Op("write %d", n)
	b := make([]byte, n)
	for i := range b {
		x.n++
		b[i] = byte(x.n%251 + 1)
	}
	l, err := x.fm.Write(b)
	if err != nil {
		x.c.Fail("L11/write-error", "%v", err)
	}
	if x.pos(l) != len(x.data) {
		x.c.Fail("L11/write-location", "%d bytes were written to %s, not to %s", n, l, x.loc(len(x.data)))
	}
	x.cut = append(x.cut, len(x.data))
	x.data = append(append([]byte(nil), x.data...), b...)
}

func (x *files) del(i int) {
	l := x.loc(x.cut[i])
	if x.cut[i] > 0 && l.Offset == 0 && x.c.Bool() { // both names of a file boundary
		l = fmgr.NewLocation(l.FileId-1, int64(x.size))
	}
	x.c.Op("delete to %s", l)
	if err := x.fm.DeleteTo(l); err != nil {
		x.c.Fail("L11/delete-error", "%v", err)
	}
	x.data = x.data[:x.cut[i]]
	x.cut = x.cut[:i]
}

func (x *files) prepare() {
	x.c.Op("prepare")
	x.start, x.target = x.fm.NextFlushStartLocation(), x.fm.LatestLocation()
	b := &buffer{}
	x.fm.ReadRange(x.start, x.target, b)
	if b.err != nil {
		x.c.Fail("L11/prepare-error", "%v", b.err)
	}
	s, t := x.pos(x.start), x.pos(x.target)
	if t != len(x.data) || s > t || !bytes.Equal(b.b, x.data[s:]) {
		x.c.Fail("L11/prepare", "a flush from %s to %s holds %x, the files %x", x.start, x.target, b.b, x.data)
	}
	x.fm.SetNextFlushStartLocation(x.target)
	x.flush, x.image, x.prepared = b.b, append([]byte(nil), x.data...), true
}

func (x *files) cancel() {
	x.c.Op("cancel")
	if n := x.fm.NextFlushStartLocation(); n.Compare(x.start) > 0 {
		x.fm.SetNextFlushStartLocation(x.start)
	}
	x.prepared = false
}

func (x *files) commit() {
	x.c.Op("commit")
	before := readDisk(x.dir)
	if err := x.fm.Flush(x.start, x.target, x.flush); err != nil {
		x.c.Fail("L11/commit-error", "%v", err)
	}
	x.disk, x.prepared = x.image, false
	after := readDisk(x.dir)
	var all []byte
	for i := 1; ; i++ {
		b, ok := after[i]
		if !ok {
			break
		}
		delete(after, i)
		all = append(all, b...)
		if len(b) != x.size {
			break
		}
	}
	if !bytes.Equal(all, x.disk) || len(after) > 0 {
		x.c.Fail("L11/commit", "the files hold %x after a flush of %x (before: %v, beyond: %v)", all, x.disk, before, after)
	}
}

// restart loses what was not flushed; with a redo log the flush is repeated.
func (x *files) restart(d disk, redo bool) {
	x.close()
	if d != nil {
		os.RemoveAll(x.dir)
		x.dir = MkTemp("l11")
		dir := x.dir
		x.c.Defer(func() { os.RemoveAll(dir) })
		d.write(x.dir)
	}
	x.open()
	if redo {
		if err := x.fm.DeleteTo(x.start); err != nil {
			x.c.Fail("L11/recover-delete", "%v", err)
		}
		if _, err := x.fm.Write(x.flush); err != nil {
			x.c.Fail("L11/recover-write", "%v", err)
		}
		if err := x.fm.Flush(x.start, x.target, x.flush); err != nil {
			x.c.Fail("L11/recover-flush", "%v", err)
		}
		x.disk = x.image
	}
	x.data, x.prepared = append([]byte(nil), x.disk...), false
	for i := range x.cut {
		if x.cut[i] >= len(x.data) {
			x.cut = x.cut[:i]
			break
		}
	}
}

func (x *files) check() {
	c := x.c
	if l := x.fm.LatestLocation(); x.pos(l) != len(x.data) {
		c.Fail("L11/latest", "the files end at %s, not at %s", l, x.loc(len(x.data)))
	}
	n := len(x.data)
	for s := 0; s <= n; s++ {
		b := make([]byte, n-s+2)
		var starts []*fmgr.Location
		if s > 0 && s%x.size == 0 { // both names of a file boundary
			starts = append(starts, fmgr.NewLocation(uint64(s/x.size), int64(x.size)))
		}
		if s < n || s%x.size != 0 || s == 0 {
			starts = append(starts, x.loc(s))
		}
		for _, l := range starts {
			next, k, err := x.fm.ReadRaw(l, b)
			if k != n-s || !bytes.Equal(b[:k], x.data[s:]) || err != io.EOF {
				c.Fail("L11/read", "reading at %s gives %x (%v), not %x", l, b[:k], err, x.data[s:])
			}
			if x.pos(next) != n {
				c.Fail("L11/read-next", "reading all from %s ends at %s", l, next)
			}
			if e := s + 1; e <= n {
				next, k, err = x.fm.ReadRaw(l, b[:1])
				if k != 1 || err != nil || b[0] != x.data[s] || x.pos(next) != e {
					c.Fail("L11/read-one", "reading one byte at %s gives %x (%v) and %s", l, b[:k], err, next)
				}
			}
			for _, e := range []int{-1, n, s, (s + n) / 2} {
				var end *fmgr.Location
				w := x.data[s:]
				if e >= 0 {
					w = x.data[s:e]
					end = x.loc(e)
					if end.Compare(x.fm.LatestLocation()) > 0 {
						end = x.fm.LatestLocation()
					}
				}
				if end != nil && end.Compare(l) < 0 {
					continue
				}
				r := &buffer{}
				x.fm.ReadRange(l, end, r)
				if r.err != nil || !bytes.Equal(r.b, w) {
					c.Fail("L11/range", "the range from %s to %v is %x (%v), not %x", l, end, r.b, r.err, w)
				}
			}
		}
	}
	c.State()
}

func (x *files) step(i, d int) {
	c := x.c
	var l []func()
	left := x.size - len(x.data)%x.size
	room := func(n int) bool { // the cache holds everything not yet on disk
		return !x.prepared || int(x.loc(len(x.data)+n-1).FileId-x.start.FileId) < x.cache
	}
	sizes := map[int]bool{}
	for _, n := range []int{1, left, left + 1, 2*x.size + 1} {
		if n := n; !sizes[n] && room(n) && len(x.data)+n <= 11*x.size {
			sizes[n] = true
			l = append(l, func() { x.write(n) })
		}
	}
	for i := range x.cut {
		i := i
		l = append(l, func() { x.del(i) })
	}
	if !x.prepared {
		l = append(l, x.prepare)
		l = append(l, func() { c.Op("restart"); x.restart(nil, false) })
	} else {
		l = append(l, x.commit, x.cancel)
		l = append(l, func() {
			ds, names := crashPoints(readDisk(x.dir), x.size, x.pos(x.start), x.pos(x.target), x.flush, 1)
			k := c.Choose(len(ds))
			c.Op("crash with %s", names[k])
			x.restart(ds[k], true)
		})
	}
	l[c.Choose(len(l))]()
	if c.Fresh() || i == d {
		x.check()
	}
}

// fileScenario begins empty or with several flushed files.
func fileScenario(size, cache, d int, loaded bool) Scenario {
	return Scenario{Name: fmt.Sprintf("files-%d-%d-loaded-%v-depth%d", size, cache, loaded, d), Body: func(c *C) {
		x := &files{c: c, size: size, cache: cache, dir: MkTemp("l11")}
		c.Defer(func() { x.close(); os.RemoveAll(x.dir) })
		x.open()
		if loaded {
			x.write(1)
			x.write(2*size + 1)
			if cache > 4 {
				x.write(7*size - 1) // ten files and more
			}
			x.prepare()
			x.commit()
			if c.Bool() {
				c.Op("restart")
				x.restart(nil, false)
			}
		}
		for i := 1; i <= d; i++ {
			x.step(i, d)
		}
	}}
}

func main() {
	Main(Suite{Property: "L11", Scenarios: func(tier string) []Scenario {
		d, e := 6, 5
		if tier == "thorough" {
			d, e = 7, 7
		}
		return []Scenario{fileScenario(3, 1, d, false), fileScenario(3, 2, d, false), fileScenario(3, 1, d-1, true), fileScenario(3, 2, d-1, true), fileScenario(3, 4, d-1, true), fileScenario(3, 10, d-2, true), fileScenario(4, 8, d, false),
			blockScenario(exactSize()+25, e), blockScenario(exactSize(), e), Asked(fileScenario(3, 2, d-1, true)), Asked(blockScenario(exactSize()+25, e-1))}
	}})
}
