// Property L01: whatever instant the process dies at, the next start recovers the last durable ledger.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

type shot struct {
	what string
	img  Image
	new  bool // expected: the ledger the operation makes durable (else: the one durable before)
}

type run struct {
	*Hist
	c      *C
	at     FlushPoint
	ev     *EventSpy
	shots  []shot
	record bool
	// flush bookkeeping
	target   []Entry
	deltas   map[int]Image // files each store's commit changed
	before   Image
	base     Image
	nCommit  int
	inject   string // "redo:2" or "commit:1"
	between  string // stage at which extra blocks are inserted
	extra    func()
	inFlush  bool
	complete bool
}

func clean(m Image) Image {
	n := Image{}
	for k, v := range m {
		b := filepath.Base(k)
		if b == "LOCK" || b == "LOG" || b == "LOG.old" {
			continue
		}
		n[k] = v
	}
	return n
}

func (r *run) take(what string, isNew bool) {
	if r.record {
		r.shots = append(r.shots, shot{what, clean(ReadImage(r.W.Dir)), isNew})
	}
}

func (r *run) install() {
	r.at = func(store int, stage string) error {
		if stage == "prepare" && store == 0 {
			r.take("before prepare", false)
			r.deltas = map[int]Image{}
			r.nCommit = 0
		}
		if stage == "prepared" && store == 3 {
			r.target = r.Confirmed()
		}
		if stage == "redo" {
			if store == 0 && r.between == "redo" {
				r.extra()
			}
			r.take(fmt.Sprintf("writing redo log of store %d", store), false)
			if r.inject == fmt.Sprintf("redo:%d", store) {
				r.inject = ""
				return errors.New("injected redo log failure")
			}
		}
		if stage == "commit" {
			if r.nCommit == 0 {
				r.inFlush = true // the redo log is complete
				r.base = nil
				if r.record {
					r.base = clean(ReadImage(r.W.Dir))
				}
				if r.between == "commit" {
					r.extra()
				}
			}
			r.nCommit++
			if r.record {
				r.before = clean(ReadImage(r.W.Dir))
			}
			if r.inject == fmt.Sprintf("commit:%d", store) {
				r.inject = ""
				return errors.New("injected commit failure")
			}
		}
		if stage == "committed" && r.record {
			d := Image{}
			now := clean(ReadImage(r.W.Dir))
			for k, v := range now {
				if o, ok := r.before[k]; !ok || string(o) != string(v) {
					d[k] = v
				}
			}
			for k := range r.before {
				if _, ok := now[k]; !ok {
					d[k] = nil
				}
			}
			r.deltas[store] = d
		}
		if stage == "after" && store == 0 {
			r.take("all stores committed", true)
		}
		if stage == "aftered" && store == 3 {
			r.take("before the redo log is cleared", true)
		}
		return nil
	}
	r.W.SpyFlusher(&r.at)
	r.ev = &EventSpy{At: func(ev string) error {
		r.take("event "+ev, r.inFlush)
		return nil
	}}
	r.W.Chain.Register(r.ev)
}

// images derives all crash images of the last flush from what was recorded.
func (r *run) images() []shot {
	out := append([]shot{}, r.shots...)
	if r.base == nil {
		return out
	}
	redo := ""
	for k := range r.base {
		if strings.HasSuffix(k, "redo.log") {
			redo = k
		}
	}
	// any subset of the stores committed, in combination with the complete redo log
	for s := 0; s < 16; s++ {
		img := r.base.Clone()
		ok := true
		for i := 0; i < 4; i++ {
			if s&(1<<i) == 0 {
				continue
			}
			d, has := r.deltas[i]
			if !has {
				ok = false
				break
			}
			apply(img, d)
		}
		if ok {
			out = append(out, shot{fmt.Sprintf("stores %04b committed", s), img, true})
		}
	}
	// a store's plain files torn in the middle of its commit
	for i, d := range r.deltas {
		for k, v := range d {
			if v == nil || strings.HasSuffix(k, ".log") || strings.Contains(k, "MANIFEST") || strings.HasSuffix(k, "CURRENT") {
				continue
			}
			old := len(r.base[k])
			if len(v) <= old {
				continue
			}
			for _, cut := range []int{old + 1, old + (len(v)-old)/2, len(v) - 1} {
				img := r.base.Clone()
				img[k] = v[:cut]
				out = append(out, shot{fmt.Sprintf("file of store %d torn at %d of %d..%d", i, cut, old, len(v)), img, true})
			}
		}
	}
	// torn redo log: nothing committed yet
	if redo != "" {
		full := r.base[redo]
		cuts := map[int]bool{}
		add := func(n int) {
			if n >= 0 && n < len(full) {
				cuts[n] = true
			}
		}
		for _, n := range []int{0, 1, 16, 31, 32, 33, 34, 36, 37, 60} {
			add(n)
			add(len(full) - n)
		}
		// record boundaries
		p := 0
		for p+36 <= len(full) {
			n := int(full[p+32])<<24 | int(full[p+33])<<16 | int(full[p+34])<<8 | int(full[p+35])
			for _, q := range []int{p, p + 1, p + 31, p + 32, p + 33, p + 35, p + 36, p + 37, p + 36 + n/2, p + 36 + n - 1, p + 36 + n} {
				add(q)
			}
			p += 36 + n
		}
		if r.c.Tier == "thorough" {
			for n := 0; n < len(full); n += 7 {
				add(n)
			}
		}
		for n := range cuts {
			img := r.base.Clone()
			img[redo] = full[:n]
			out = append(out, shot{fmt.Sprintf("redo log torn at %d of %d", n, len(full)), img, false})
		}
	}
	return out
}

func apply(img, d Image) {
	for k, v := range d {
		if v == nil {
			delete(img, k)
		} else {
			img[k] = v
		}
	}
}

var seen = map[string]bool{}

// check reopens one crash image.
func (r *run) check(s shot, wantLog []Entry, deep bool) {
	k := s.img.Key().String() + LogKey(wantLog)
	if seen[k] {
		return
	}
	r.c.State()
	r.c.Count("crash_images", 1)
	dir := MkTemp("crash-")
	defer os.RemoveAll(dir)
	s.img.Write(dir)
	o := r.O
	o.Dir = dir
	w, err := Open(o)
	if err != nil {
		r.c.Fail("reopen", "crash point %q: the ledger does not start again: %v", s.what, err)
	}
	func() {
		defer w.Close()
		want, err := r.Ref(wantLog, "")
		if err != nil {
			r.c.Fail("reference", "the durable history is not replayable: %v", err)
		}
		got := w.Dump(r.D)
		if d := Diff(got, want, 5, r.Ignore); len(d) > 0 {
			r.c.Fail("recovered", "crash point %q: recovered ledger differs from the last durable one (recovered != expected):\n  %s", s.what, strings.Join(d, "\n  "))
		}
		if deep {
			// the recovered node goes on working and its next flush is durable
			b, err := w.Send(Users[3], Users[2].Addr, ledger.ViteTokenId, big.NewInt(7), nil)
			if err != nil {
				r.c.Fail("after-recovery", "crash point %q: cannot send after recovery: %v", s.what, err)
			}
			sb, err := w.Snapshot()
			if err != nil {
				r.c.Fail("after-recovery", "crash point %q: cannot snapshot after recovery: %v", s.what, err)
			}
			w.Chain.Flusher().Flush()
			log := append(append([]Entry{}, wantLog...), Entry{AB: b}, Entry{SB: sb})
			want, err := r.Ref(log, "")
			if err != nil {
				r.c.Fail("reference", "history after recovery is not replayable: %v", err)
			}
			dir2 := MkTemp("crash2-")
			defer os.RemoveAll(dir2)
			CopyTree(dir, dir2)
			o.Dir = dir2
			w2, err := Open(o)
			if err != nil {
				r.c.Fail("reopen2", "crash point %q: the ledger does not start after recovery and another flush: %v", s.what, err)
			}
			defer w2.Close()
			if d := Diff(w2.Dump(r.D), want, 5, r.Ignore); len(d) > 0 {
				r.c.Fail("recovered2", "crash point %q: ledger after recovery, a flush and a restart differs:\n  %s", s.what, strings.Join(d, "\n  "))
			}
		}
	}()
	seen[k] = true
}

// plain wraps an op so that every crash point inside it is captured and checked.
func (r *run) step(o Op) bool {
	r.record = r.c.Fresh()
	r.shots, r.base, r.target = nil, nil, nil
	old := r.Disk
	r.inFlush = false
	ok := o.Do(r.Hist)
	r.record = false
	if !ok {
		return false
	}
	r.c.Op("%s", o.Name)
	if r.c.Fresh() {
		imgs := r.images()
		// after the operation returned
		imgs = append(imgs, shot{"after " + o.Name, clean(ReadImage(r.W.Dir)), true})
		for i, s := range imgs {
			if s.new {
				r.check(s, r.Disk, i%5 == 0)
			} else {
				r.check(s, old, i%5 == 0)
			}
		}
		r.Check("live")
	}
	return true
}

func (r *run) flushOps() []Op {
	w := func(name string, f func(h *Hist)) Op {
		return Op{Name: name, Do: func(h *Hist) bool { f(h); return true }}
	}
	insert := func() {
		b, err := r.W.Send(Users[1], Users[3].Addr, ledger.ViteTokenId, big.NewInt(5), nil)
		if err != nil {
			r.c.Fail("insert-during-flush", "cannot insert while flushing: %v", err)
		}
		r.Log = append(r.Log, Entry{AB: b})
		sb, err := r.W.Snapshot()
		if err != nil {
			r.c.Fail("insert-during-flush", "cannot snapshot while flushing: %v", err)
		}
		r.Log = append(r.Log, Entry{SB: sb})
	}
	flush := func() { r.W.Chain.Flusher().Flush() }
	return []Op{
		w("flush", func(h *Hist) { flush(); r.Disk = r.target }),
		w("flush, blocks inserted while the redo log is written", func(h *Hist) {
			r.between, r.extra = "redo", insert
			flush()
			r.between = ""
			r.Disk = r.target
		}),
		w("flush, blocks inserted while committing", func(h *Hist) {
			r.between, r.extra = "commit", insert
			flush()
			r.between = ""
			r.Disk = r.target
		}),
		w("flush, block store commit fails", func(h *Hist) { r.inject = "commit:0"; flush(); r.Disk = r.target }),
		w("flush, state store commit fails", func(h *Hist) { r.inject = "commit:1"; flush(); r.Disk = r.target }),
		w("flush, index store commit fails", func(h *Hist) { r.inject = "commit:3"; flush(); r.Disk = r.target }),
		w("flush, redo log of the state store fails", func(h *Hist) { r.inject = "redo:1"; flush() }),
		w("flush, redo log of the index store fails after blocks were inserted", func(h *Hist) {
			r.between, r.extra = "redo", insert
			r.inject = "redo:3"
			flush()
			r.between = ""
		}),
	}
}

func scen(name string, deploy int, prefix []Op, depth int, ops []Op, fl []int) Scenario {
	return Scenario{Name: name, Bound: fmt.Sprintf("%d steps over {%s} and flushes %v after [%s]; every crash point of every step", depth, Names(ops), fl, Names(prefix)), Body: func(c *C) {
		r := &run{c: c, Hist: NewHist(c, Options{}, deploy)}
		r.install()
		for _, p := range prefix {
			if !p.Do(r.Hist) {
				c.Fail("prefix", "prefix step %s not possible", p.Name)
			}
			c.Op("%s", p.Name)
		}
		all := append([]Op{}, ops...)
		fo := r.flushOps()
		for _, i := range fl {
			all = append(all, fo[i])
		}
		for i := 0; i < depth; i++ {
			if !r.step(all[c.Choose(len(all))]) {
				c.Prune()
			}
		}
	}}
}

func main() {
	c0 := ContractAddr(0)
	Main(Suite{Property: "L01", Scenarios: func(tier string) []Scenario {
		d := 2
		if tier == "thorough" {
			d = 3
		}
		all := []int{0, 1, 2, 3, 4, 5, 6, 7}
		return []Scenario{
			scen("first-flush", 0, []Op{OpXfer(0, 1), OpSnap()}, d, []Op{OpXfer(0, 1), OpSnap(), OpRollback(1)}, all),
			scen("later-flush", 1, []Op{OpFlush(), OpCall(0, 0, ModeForward), OpCRecv(c0, "c0"), OpSnap(), OpXfer(1, 2)}, d, []Op{OpCRecv(c0, "c0"), OpRecv(2), OpSnap(), OpRollback(1), OpRollback(2)}, all),
			scen("after-rollback", 1, []Op{OpCall(0, 0, ModeStore), OpCRecv(c0, "c0"), OpSnap(), OpFlush(), OpXfer(0, 1), OpSnap(), OpFlush(), OpRollback(2)}, d, []Op{OpXfer(2, 1), OpSnap(), OpRollback(1)}, all),
		}
	}})
}
