// Property P02: insertion batches. Every sequence of account and snapshot blocks offered to a batch is
// enumerated, then the batch is executed under every order in which the concurrent inserts can finish and
// with every single insert failing; a block must never be inserted before what it refers to.
package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/batch"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type item struct {
	name     string
	hash     types.Hash
	prev     types.Hash
	height   uint64
	owner    *types.Address
	keys     []types.Hash
	accounts []types.Hash
	snap     *types.Hash
	label    *types.Hash // the snapshot the block was offered under
	epoch    int         // snapshot blocks offered before it
	fork     bool
}

func (m *item) ReferHashes() ([]types.Hash, []types.Hash, *types.Hash) {
	return m.keys, m.accounts, m.snap
}
func (m *item) Owner() *types.Address { return m.owner }
func (m *item) Hash() types.Hash      { return m.hash }
func (m *item) Height() uint64        { return m.height }
func (m *item) PrevHash() types.Hash  { return m.prev }

type sys struct {
	c     *C
	b     batch.Batch
	max   int
	n     byte
	chain map[types.Hash]bool // hashes the ledger has
	known map[types.Hash]bool // hashes accepted by the batch
	head  map[int]*item       // last accepted block of an account
	sHead *item
	snaps int
	acc   []*item
	sends []types.Hash // hashes that can be received (accepted in the batch)
	label *types.Hash
	rival bool // a competing block was taken: a refusal of its rivals is right
}

func (s *sys) h() (x types.Hash) {
	s.n++
	x[0], x[31] = s.n, 7*s.n+1
	return
}

func addr(i int) *types.Address {
	a := types.Address{}
	a[0] = byte(i + 1)
	return &a
}

func newSys(c *C, max int) *sys {
	s := &sys{c: c, max: max, chain: map[types.Hash]bool{}, known: map[types.Hash]bool{}, head: map[int]*item{}}
	ex := func(h types.Hash) error {
		if s.chain[h] {
			return nil
		}
		return errors.New("not there")
	}
	s.b = batch.NewBatch(ex, ex, 77, max)
	if s.b.Version() != 77 {
		c.Fail("P02/version", "version %d", s.b.Version())
	}
	return s
}

func (s *sys) ready(it *item) bool {
	for _, r := range it.accounts {
		if !s.chain[r] && !s.known[r] {
			return false
		}
	}
	return it.snap == nil || s.chain[*it.snap] || s.known[*it.snap]
}

// offer hands the item to the batch and says whether it was taken.
func (s *sys) offer(it *item) bool {
	it.label, it.epoch = s.label, s.snaps
	full := len(s.b.Levels()) >= s.max
	size := s.b.Size()
	ok := s.ready(it)
	var err error
	if it.owner == nil {
		err = s.b.AddSItem(it)
	} else {
		err = s.b.AddAItem(it, s.label)
	}
	s.c.Op("offer %s: %v", it.name, err)
	if err == nil && !ok {
		s.c.Fail("P02/dangling", "%s was taken although something it refers to is nowhere", it.name)
	}
	if err != nil && ok && !full && !it.fork && !s.rival {
		s.c.Fail("P02/refused", "%s was refused although everything it refers to is there: %v", it.name, err)
	}
	if err != nil && !ok && !full && !it.fork {
		if e, is := err.(interface{ Cause() error }); !is || e.Cause() != batch.ErrorReference {
			s.c.Fail("P02/reason", "%s was refused with %v instead of a missing reference", it.name, err)
		}
	}
	if err != nil {
		if s.b.Size() != size {
			s.c.Fail("P02/refused-size", "the size changed when %s was refused", it.name)
		}
		for _, k := range it.keys {
			if s.b.Exists(k) && !s.known[k] {
				s.c.Fail("P02/refused-exists", "refused %s exists in the batch", it.name)
			}
		}
		return false
	}
	s.acc = append(s.acc, it)
	s.rival = s.rival || it.fork
	for _, k := range it.keys {
		s.known[k] = true
		if it.owner != nil {
			s.sends = append(s.sends, k)
		}
	}
	if it.owner == nil {
		s.sHead, s.snaps = it, s.snaps+1
		x := it.hash
		s.label = &x
	}
	return true
}

// sibling is a block that competes with the account's last accepted one.
func (s *sys) sibling(i int, from *types.Hash) *item {
	it := s.account(i, from, false)
	p := s.head[i]
	it.prev, it.height, it.name, it.fork = p.prev, p.height, it.name+"(fork)", true
	it.accounts[len(it.accounts)-1] = p.prev
	return it
}

func (s *sys) account(i int, from *types.Hash, embedded bool) *item {
	it := &item{hash: s.h(), owner: addr(i), name: fmt.Sprintf("%c", 'A'+i)}
	if p := s.head[i]; p != nil {
		it.prev, it.height = p.hash, p.height+1
	} else {
		it.prev, it.height = s.h(), 5
		s.chain[it.prev] = true
	}
	it.name += fmt.Sprint(it.height)
	it.keys = []types.Hash{it.hash}
	if from != nil {
		it.accounts = append(it.accounts, *from)
		it.name += fmt.Sprintf("<-%d", from[0])
	}
	it.accounts = append(it.accounts, it.prev)
	if embedded {
		it.keys = append(it.keys, s.h())
		it.name += "+send"
	}
	return it
}

func (s *sys) snapshot(missing bool) *item {
	it := &item{hash: s.h(), name: "S", height: 9}
	if s.sHead != nil {
		it.prev, it.height = s.sHead.hash, s.sHead.height+1
	} else {
		it.prev = s.h()
		s.chain[it.prev] = true
	}
	p := it.prev
	it.snap = &p
	it.keys = []types.Hash{it.hash}
	for i := 0; i < 3; i++ {
		if s.head[i] != nil {
			it.accounts = append(it.accounts, s.head[i].hash)
		}
	}
	if missing {
		it.accounts = append(it.accounts, s.h())
	}
	return it
}

// place is the position of an item: level index, bucket, index in the bucket.
type place struct {
	level, idx int
	owner      types.Address
	snap       bool
}

func (s *sys) check() {
	c := s.c
	where := map[types.Hash]place{} // key -> place
	n := 0
	for li, l := range s.b.Levels() {
		if l.Index() != li {
			c.Fail("P02/index", "level %d says it is %d", li, l.Index())
		}
		if li >= s.max {
			c.Fail("P02/max", "more than %d levels", s.max)
		}
		seen := map[types.Address]bool{}
		size := 0
		for _, b := range l.Buckets() {
			if (b.Owner() == nil) != l.Snapshot() {
				c.Fail("P02/mixed", "level %d mixes snapshot and account blocks", li)
			}
			if b.Owner() != nil {
				if seen[*b.Owner()] {
					c.Fail("P02/bucket", "an account has two buckets in level %d", li)
				}
				seen[*b.Owner()] = true
			}
			for i, x := range b.Items() {
				it := x.(*item)
				size++
				n++
				if (it.owner == nil) != l.Snapshot() || (it.owner != nil && *it.owner != *b.Owner()) {
					c.Fail("P02/bucket", "%s is in another account's bucket", it.name)
				}
				if it.owner != nil && (l.SHash() == nil) != (it.label == nil) || it.owner != nil && it.label != nil && *l.SHash() != *it.label {
					c.Fail("P02/shash", "%s was offered under another snapshot than its level's", it.name)
				}
				if i > 0 && b.Items()[i-1].Hash() != it.prev {
					c.Fail("P02/unlinked", "%s follows a block that is not its predecessor", it.name)
				}
				p := place{level: li, idx: i, snap: l.Snapshot()}
				if b.Owner() != nil {
					p.owner = *b.Owner()
				}
				for _, k := range it.keys {
					if _, dup := where[k]; dup {
						c.Fail("P02/twice", "%s is in the batch twice", it.name)
					}
					where[k] = p
				}
			}
		}
		if l.Size() != size {
			c.Fail("P02/level-size", "level %d has %d items and says %d", li, size, l.Size())
		}
	}
	if n != len(s.acc) || s.b.Size() != len(s.known) {
		c.Fail("P02/size", "%d blocks were taken, the batch holds %d (size %d)", len(s.acc), n, s.b.Size())
	}
	for _, it := range s.acc {
		me, ok := where[it.hash]
		if !ok {
			c.Fail("P02/lost", "%s was taken and is in no level", it.name)
		}
		refs := append([]types.Hash(nil), it.accounts...)
		if it.snap != nil {
			refs = append(refs, *it.snap)
		}
		for _, r := range refs {
			if s.chain[r] {
				continue
			}
			p := where[r]
			if p.level < me.level || p.level == me.level && p.snap == me.snap && p.owner == me.owner && p.idx < me.idx {
				continue
			}
			c.Fail("P02/order", "%s (level %d) may be inserted before %s (level %d), to which it refers\n%s", it.name, me.level, r, p.level, s.b.Info())
		}
		for _, o := range s.acc {
			op := where[o.hash]
			// blocks offered before a snapshot block are inserted before it, those offered after it after it
			if it.owner == nil && o.owner != nil && (o.epoch <= it.epoch) != (op.level < me.level) {
				c.Fail("P02/epoch", "%s and %s are inserted in the wrong order", o.name, it.name)
			}
		}
	}
	for k := range s.known {
		if !s.b.Exists(k) {
			c.Fail("P02/exists", "an accepted block does not exist in the batch")
		}
	}
	c.State()
}

// step offers one item of the menu.
func (s *sys) step() {
	type opt struct {
		f func() *item
		i int
	}
	var l []opt
	for i := 0; i < 3; i++ {
		i := i
		l = append(l, opt{func() *item { return s.account(i, nil, false) }, i})
		l = append(l, opt{func() *item { return s.account(i, nil, true) }, i})
		if i > 0 && s.head[i-1] == nil {
			break // accounts are interchangeable until they are used
		}
		for _, k := range s.sends {
			k := k
			l = append(l, opt{func() *item { return s.account(i, &k, false) }, i})
		}
		l = append(l, opt{func() *item { x := s.h(); return s.account(i, &x, false) }, i})
		l = append(l, opt{func() *item { x := s.h(); s.chain[x] = true; return s.account(i, &x, false) }, i})
		if s.head[i] != nil {
			for _, k := range s.sends {
				if k := k; k != s.head[i].hash {
					l = append(l, opt{func() *item {
						it := s.account(i, &k, false)
						it.accounts[0], it.accounts[1] = it.accounts[1], it.accounts[0]
						it.name += "(prev first)"
						return it
					}, i})
				}
			}
			l = append(l, opt{func() *item { return s.sibling(i, nil) }, -1})
		}
		if s.head[i] == nil {
			break
		}
	}
	l = append(l, opt{func() *item { return s.snapshot(false) }, -1}, opt{func() *item { return s.snapshot(true) }, -1},
		opt{func() *item {
			it := s.snapshot(false)
			x := s.h()
			it.snap, it.name = &x, "S(no prev)"
			return it
		}, -1})
	o := l[s.c.Choose(len(l))]
	it := o.f()
	if s.offer(it) && o.i >= 0 {
		s.head[o.i] = it
	}
}

// execute runs the batch: all inserts of a level that are under way finish in a chosen order, one may fail.
func (s *sys) execute(gate bool) {
	c := s.c
	type call struct {
		id   string
		b    batch.Bucket
		done chan error
	}
	var mu sync.Mutex
	var viol string
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		if viol == "" {
			viol = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	inserted := map[types.Hash]bool{}
	ran := map[types.Hash]bool{}
	arrive := make(chan *call, 100)
	enter := func(l batch.Level, b batch.Bucket, v uint64) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range b.Items() {
			it := x.(*item)
			if ran[it.hash] && viol == "" {
				viol = it.name + " is inserted twice"
			}
			ran[it.hash] = true
		}
		if v != 77 && viol == "" {
			viol = "wrong version"
		}
		own := map[types.Hash]bool{}
		for _, x := range b.Items() {
			it := x.(*item)
			refs := append([]types.Hash(nil), it.accounts...)
			if it.snap != nil {
				refs = append(refs, *it.snap)
			}
			for _, r := range refs {
				if !s.chain[r] && !inserted[r] && !own[r] && viol == "" {
					viol = fmt.Sprintf("%s is inserted although %d, to which it refers, is not", it.name, r[0])
				}
			}
			for _, k := range it.keys {
				own[k] = true
			}
		}
	}
	leave := func(b batch.Bucket) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range b.Items() {
			for _, k := range x.(*item).keys {
				inserted[k] = true
			}
		}
	}
	boom := errors.New("insert failed")
	fn := func(p batch.Batch, l batch.Level, b batch.Bucket, v uint64) error {
		if p != s.b || (b.Owner() == nil) != l.Snapshot() {
			fail("wrong arguments for an insert")
		}
		enter(l, b, v)
		if !gate {
			leave(b)
			return nil
		}
		k := &call{b: b, done: make(chan error)}
		k.id = fmt.Sprint(l.Index())
		if b.Owner() != nil {
			k.id += b.Owner().String()
		}
		arrive <- k
		err := <-k.done
		return err
	}
	snapFn := func(p batch.Batch, l batch.Level, b batch.Bucket, v uint64) error {
		if !l.Snapshot() {
			fail("an account level was given to the snapshot inserter")
		}
		return fn(p, l, b, v)
	}
	accFn := func(p batch.Batch, l batch.Level, b batch.Bucket, v uint64) error {
		if l.Snapshot() {
			fail("a snapshot level was given to the account inserter")
		}
		return fn(p, l, b, v)
	}
	res := make(chan error, 1)
	go func() { res <- s.b.Batch(snapFn, accFn) }()
	failed := false
	var err error
	levels := s.b.Levels()
	if gate {
		for li := 0; ; li++ {
			// wait until every insert of the level is under way (at most 5 run together), or the batch returned
			want := 0
			if li < len(levels) && !failed {
				want = len(levels[li].Buckets())
				if levels[li].Size() == 0 && !levels[li].Snapshot() {
					continue
				}
			}
			var l []*call
			over := false
			for len(l) < want && !over {
				select {
				case k := <-arrive:
					l = append(l, k)
				case err = <-res:
					over = true
				case <-time.After(300 * time.Millisecond):
					want = len(l) // fewer run together than expected: go on with those
					if len(l) == 0 {
						want = 1
					}
				}
			}
			if want == 0 && !over {
				select {
				case k := <-arrive:
					l, want = append(l, k), 1
				case err = <-res:
					over = true
				}
			}
			if over {
				for _, k := range l {
					k.done <- nil
					fail("the batch returned while inserts were under way")
				}
				break
			}
			sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
			for len(l) > 0 {
				i := c.Choose(len(l))
				k := l[i]
				l = append(l[:i:i], l[i+1:]...)
				if !failed && c.Choose(2) == 1 {
					failed = true
					c.Op("insert of %s fails", k.id)
					k.done <- boom
				} else {
					c.Op("insert of %s succeeds", k.id)
					leave(k.b)
					k.done <- nil
				}
			}
		}
	} else {
		err = <-res
	}
	mu.Lock()
	defer mu.Unlock()
	if viol != "" {
		c.Fail("P02/execute", "%s", viol)
	}
	if failed && err == nil {
		c.Fail("P02/swallowed", "an insert failed and the batch reports success")
	}
	if !failed {
		if err != nil {
			c.Fail("P02/spurious", "the batch reports %v although no insert failed", err)
		}
		for _, it := range s.acc {
			if !ran[it.hash] {
				c.Fail("P02/skipped", "%s was never inserted although the batch reports success", it.name)
			}
		}
		for i, l := range s.b.Levels() {
			if !l.HasDone() {
				c.Fail("P02/done", "level %d is not done", i)
			}
		}
	}
	c.State()
}

func main() {
	Main(Suite{Property: "P02", QuickBudget: 150 * time.Second, ThoroughBudget: 30 * time.Minute, Scenarios: func(tier string) []Scenario {
		d, x := 5, 4
		if tier == "thorough" {
			d, x = 6, 5
		}
		build := func(depth, max int, gate bool) func(c *C) {
			return func(c *C) {
				s := newSys(c, max)
				for i := 0; i < depth; i++ {
					s.step()
					s.check()
				}
				s.execute(gate)
			}
		}
		return []Scenario{
			{Name: "build", Bound: fmt.Sprintf("every sequence of %d offered blocks of 3 accounts and snapshots, 50 levels", d), Body: build(d, 50, false)},
			{Name: "build-limited", Bound: fmt.Sprintf("every sequence of %d offered blocks, 2 levels", d), Body: build(d, 2, false)},
			{Name: "execute", Bound: fmt.Sprintf("every sequence of %d offered blocks, every completion order of the inserts, every single failing insert", x), Body: build(x, 50, true)},
		}
	}})
}
