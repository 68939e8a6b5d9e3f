// Property P01: the tree of pending forks of a chain. Every operation the pool performs (fork, extend,
// commit to the ledger, roll the ledger back, switch the main branch, prune) is enumerated in every order;
// a reference model keeps only the block graph, the ledger's chain and each branch's head.
package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

type blk struct {
	h    uint64
	hash types.Hash
	prev *blk
}

func (b *blk) Height() uint64   { return b.h }
func (b *blk) Hash() types.Hash { return b.hash }
func (b *blk) PrevHash() types.Hash {
	if b.prev == nil {
		return types.Hash{}
	}
	return b.prev.hash
}

// at returns b's ancestor at the height, or nil.
func (b *blk) at(h uint64) *blk {
	for b != nil && b.h > h {
		b = b.prev
	}
	if b == nil || b.h != h {
		return nil
	}
	return b
}
func (b *blk) has(x *blk) bool { return b.at(x.h) == x }
func (b *blk) String() string  { return fmt.Sprintf("#%d@%d", b.hash[0], b.h) }

// disk is the ledger's chain as the tree sees it (what branchChain is in the pool).
type disk struct{ head *blk }

func (d *disk) MatchHead(hash types.Hash) bool { return hash == d.head.hash }
func (d *disk) SprintTail() string             { return "disk" }
func (d *disk) SprintHead() string             { return d.head.String() }
func (d *disk) UTime() time.Time               { return time.Now() }
func (d *disk) GetKnot(h uint64, flag bool) tree.Knot {
	if b := d.head.at(h); b != nil {
		return b
	}
	return nil
}
func (d *disk) GetHash(h uint64, flag bool) *types.Hash {
	if b := d.head.at(h); b != nil {
		x := b.hash
		return &x
	}
	return nil
}
func (d *disk) GetKnotAndBranch(h uint64) (tree.Knot, tree.Branch) { return d.GetKnot(h, true), d }
func (d *disk) GetHashAndBranch(h uint64) (*types.Hash, tree.Branch) {
	return d.GetHash(h, true), d
}
func (d *disk) ContainsKnot(h uint64, hash types.Hash, flag bool) bool {
	b := d.head.at(h)
	return b != nil && b.hash == hash
}
func (d *disk) HeadHH() (uint64, types.Hash) { return d.head.h, d.head.hash }
func (d *disk) TailHH() (uint64, types.Hash) { panic("not support") }
func (d *disk) Linked(tree.Branch) bool      { panic("not support") }
func (d *disk) Size() uint64                 { return d.head.h }
func (d *disk) Root() tree.Branch            { panic("not support") }
func (d *disk) ID() string                   { return "disk" }
func (d *disk) Type() tree.BranchType        { return tree.Disk }

type sys struct {
	c      *C
	t      tree.Tree
	d      *disk
	all    []*blk
	heads  map[string]*blk // model: the head of every live branch
	order  []string        // live branches in the order they were made
	pruned bool            // no operation since the last prune
}

func (s *sys) mk(prev *blk) *blk {
	b := &blk{h: 1, prev: prev}
	if prev != nil {
		b.h = prev.h + 1
	}
	n := len(s.all) + 1
	b.hash[0] = byte(n)
	binary.BigEndian.PutUint64(b.hash[24:], uint64(n)*0x9e3779b97f4a7c15)
	s.all = append(s.all, b)
	return b
}

func (s *sys) adopt(id string, head *blk) {
	if _, ok := s.heads[id]; !ok {
		s.order = append(s.order, id)
	}
	s.heads[id] = head
}

// pending is the set of blocks that some live branch has and the ledger has not.
func (s *sys) pending() map[*blk]bool {
	m := map[*blk]bool{}
	for _, h := range s.heads {
		for b := h; b != nil && !s.d.head.has(b); b = b.prev {
			m[b] = true
		}
	}
	return m
}

func (s *sys) must(what string, err error) {
	if err != nil {
		s.c.Fail("P01/"+what, "%s: %v", what, err)
	}
}

func (s *sys) check() {
	c, t := s.c, s.t
	bs := t.Branches()
	mainID := t.Main().ID()
	if len(bs) != len(s.heads) {
		c.Fail("P01/branches", "%d branches, the model has %d", len(bs), len(s.heads))
	}
	pend := s.pending()
	for _, id := range s.order {
		head := s.heads[id]
		b, ok := bs[id]
		if !ok {
			c.Fail("P01/lost-branch", "branch %s is gone", id)
		}
		if hh, hash := b.HeadHH(); hh != head.h || hash != head.hash {
			c.Fail("P01/head", "branch %s's head is %d %s, it was extended to %s", id, hh, hash, head)
		}
		for h := uint64(1); h <= head.h+1; h++ {
			want := head.at(h)
			k, kh := b.GetKnot(h, true), b.GetHash(h, true)
			k2, kb := b.GetKnotAndBranch(h)
			h2, hb := b.GetHashAndBranch(h)
			if want == nil {
				if k != nil || kh != nil || k2 != nil || h2 != nil {
					c.Fail("P01/above", "branch %s has a block at %d above its head %s", id, h, head)
				}
				continue
			}
			if k == nil || k.Hash() != want.hash || kh == nil || *kh != want.hash || k2 == nil || k2.Hash() != want.hash || h2 == nil || *h2 != want.hash {
				c.Fail("P01/chain", "branch %s (head %s) reports %v/%v/%v/%v at height %d instead of %s", id, head, k, kh, k2, h2, h, want)
			}
			if kb == nil || hb == nil || kb.ID() != hb.ID() {
				c.Fail("P01/owner", "branch %s: the owner of %s", id, want)
			} else if o := kb.GetKnot(h, false); o == nil || o.Hash() != want.hash {
				c.Fail("P01/owner", "branch %s: %s is said to hold %s", id, kb.ID(), want)
			}
			if h > s.d.head.h || !s.d.head.has(want) {
				if !b.ContainsKnot(h, want.hash, true) {
					c.Fail("P01/contains", "branch %s does not contain its own block %s", id, want)
				}
			}
			// a different block of the same height is not contained
			for _, o := range s.all {
				if o.h == h && o != want && b.ContainsKnot(h, o.hash, false) {
					c.Fail("P01/contains", "branch %s contains %s, which is not on its chain", id, o)
				}
			}
		}
		th, thash := b.TailHH()
		if x := head.at(th); th > head.h || x == nil || x.hash != thash || b.Size() != head.h-th {
			c.Fail("P01/tail", "branch %s: tail %d, size %d, head %s", id, th, b.Size(), head)
		}
		if id == mainID && !(th == s.d.head.h && thash == s.d.head.hash && b.Linked(s.d)) {
			c.Fail("P01/main-tail", "the main branch hangs at %d %s, the ledger's head is %s", th, thash, s.d.head)
		}
		// fork point against the main branch
		mh := s.heads[mainID]
		if mh == nil {
			c.Fail("P01/main-missing", "the main branch %s is not among the branches", mainID)
		}
		f := mh
		for !head.has(f) {
			f = f.prev
		}
		key, fork, err := t.FindForkPointFromMain(b)
		if err != nil || fork == nil || fork.Hash() != f.hash {
			c.Fail("P01/fork-point", "the fork point of %s (head %s) and main (head %s) is %s, not %v (%v)", id, head, mh, f, fork, err)
		}
		long := mh
		if head.h > mh.h {
			long = head
		}
		if w := long.at(f.h + 1); (w == nil) != (key == nil) || (w != nil && key.Hash() != w.hash) {
			c.Fail("P01/key-point", "the key point of %s and main is %v, not %v", id, w, key)
		}
	}
	for _, b := range s.all {
		ex := t.Exists(b.hash)
		if pend[b] {
			if !ex {
				c.Fail("P01/exists", "pending block %s does not exist in the tree", b)
			}
			br := t.FindBranch(b.h, b.hash)
			if br == nil || !s.heads[br.ID()].has(b) {
				c.Fail("P01/find", "no branch is found for the pending block %s", b)
			}
		} else if ex && (s.pruned || t.FindBranch(b.h, b.hash) == nil) {
			c.Fail("P01/ghost", "block %s exists in the tree although no branch holds it", b)
		}
	}
	if s.pruned {
		if n := t.Size(); n != uint64(len(pend)) {
			c.Fail("P01/size", "the tree reports %d blocks, %d are pending", n, len(pend))
		}
		s.must("tree-size", tree.CheckTreeSize(t))
	}
	s.must("tree-link", tree.CheckTree(t))
	s.must("tree-ring", tree.CheckTreeRing(t))
	// brothers of main: children hanging at the ledger's head
	bro := map[string]bool{}
	for _, br := range t.Brothers(t.Main()) {
		h, hash := br.TailHH()
		if h != s.d.head.h || hash != s.d.head.hash || br.ID() == mainID || bs[br.ID()] == nil || bro[br.ID()] {
			c.Fail("P01/brothers", "%s is not a brother of main", br.ID())
		}
		bro[br.ID()] = true
	}
	for id, b := range bs {
		if h, hash := b.TailHH(); id != mainID && h == s.d.head.h && hash == s.d.head.hash && b.Root().ID() == mainID && !bro[id] {
			c.Fail("P01/brothers", "%s hangs where main does and is not among its brothers", id)
		}
	}
}

func (s *sys) add(id string, b *blk) {
	s.must("add-head", s.t.AddHead(s.t.Branches()[id], b))
	s.heads[id] = b
}

type op struct {
	name string
	run  func()
}

func (s *sys) ops(maxBranches int) (l []op) {
	t := s.t
	main := t.Main().ID()
	for _, id := range s.order {
		id, head := id, s.heads[id]
		l = append(l, op{"extend " + id, func() { s.add(id, s.mk(head)) }})
		if len(s.order) < maxBranches {
			for b := head.prev; b != nil; b = b.prev {
				b := b
				// the pool forks the branch that holds the block, or main when the ledger holds it
				k, own := t.Branches()[id].GetKnotAndBranch(b.h)
				if k == nil || own == nil {
					continue
				}
				if own.Type() == tree.Disk {
					if id != main {
						continue
					}
				} else if own.ID() != id {
					continue
				}
				l = append(l, op{fmt.Sprintf("fork %s at %s", id, b), func() {
					n := t.ForkBranch(t.Branches()[id], b.h, b.hash)
					if h, hash := n.HeadHH(); h != b.h || hash != b.hash {
						s.c.Fail("P01/fork-head", "a branch forked at %s starts at %d %s", b, h, hash)
					}
					s.adopt(n.ID(), b)
					s.check()
					s.add(n.ID(), s.mk(b))
				}})
			}
			// two snippets arriving on one head: the second one forks where main ends
		}
		if id != main && head.has(s.d.head) && !s.heads[main].has(head) {
			l = append(l, op{"switch " + id, func() {
				before := s.pending()
				s.must("switch", t.SwitchMainTo(t.Branches()[id]))
				if t.Main().ID() != id {
					s.c.Fail("P01/switch", "the main branch is %s after switching to %s", t.Main().ID(), id)
				}
				s.drop(before)
			}})
		}
		if nb := head.at(s.d.head.h + 1); nb != nil && nb.prev == s.d.head && (id == main || !s.heads[main].has(nb)) {
			l = append(l, op{"commit from " + id, func() { s.commit(nb) }})
		}
	}
	l = append(l, op{"commit new", func() { s.commit(s.mk(s.d.head)) }})
	for n := uint64(1); n <= 2 && s.d.head.h > n; n++ {
		n := n
		l = append(l, op{fmt.Sprintf("rollback %d", n), func() {
			var del []*blk
			for i := uint64(0); i < n; i++ {
				del = append(del, s.d.head)
				s.d.head = s.d.head.prev
			}
			for _, b := range del {
				s.must("add-tail", t.AddTail(t.Main(), b))
			}
		}})
	}
	if t.Main().Size() > 0 {
		l = append(l, op{"switch to empty", func() {
			old, before := t.Branches(), s.pending()
			s.must("switch-empty", t.SwitchMainToEmpty())
			m := t.Main()
			if _, ok := old[m.ID()]; !ok {
				s.adopt(m.ID(), s.d.head)
			}
			if h, hash := m.HeadHH(); m.Size() != 0 || h != s.d.head.h || hash != s.d.head.hash {
				s.c.Fail("P01/empty", "the main branch is not empty after switching to an empty one")
			}
			s.drop(before)
		}})
	}
	if !s.pruned {
		l = append(l, op{"prune", func() { s.prune() }})
	}
	return
}

// commit: the ledger appends the block, then tells the tree.
func (s *sys) commit(b *blk) {
	s.d.head = b
	old := s.t.Branches()
	s.must("root-head-add", s.t.RootHeadAdd(b))
	m := s.t.Main().ID()
	if _, ok := old[m]; !ok {
		s.adopt(m, b)
	} else if h := s.heads[m]; h == b.prev {
		s.heads[m] = b
	}
}

// drop accounts for branches that pruning removed: not the main one, and no pending block with them.
func (s *sys) drop(before map[*blk]bool) {
	left := s.t.Branches()
	var order []string
	for _, id := range s.order {
		if _, ok := left[id]; ok {
			order = append(order, id)
		} else {
			if id == s.t.Main().ID() {
				s.c.Fail("P01/prune-main", "pruning removed the main branch")
			}
			delete(s.heads, id)
		}
	}
	s.order = order
	after := s.pending()
	for b := range before {
		if !after[b] {
			s.c.Fail("P01/prune-lost", "pruning dropped the pending block %s", b)
		}
	}
}

func (s *sys) prune() {
	before := s.pending()
	dels := s.t.PruneTree()
	left := s.t.Branches()
	for _, d := range dels {
		if _, ok := left[d.ID()]; ok {
			s.c.Fail("P01/prune-list", "%s is reported as removed and is still there", d.ID())
		}
	}
	s.drop(before)
	s.pruned = true
}

func body(depth, maxBranches, disk0 int, pre func(s *sys)) func(c *C) {
	return func(c *C) {
		s := &sys{c: c, heads: map[string]*blk{}}
		s.d = &disk{head: s.mk(nil)}
		for i := 1; i < disk0; i++ {
			s.d.head = s.mk(s.d.head)
		}
		s.t = tree.NewTree()
		s.must("init", s.t.Init("t", s.d))
		s.adopt(s.t.Main().ID(), s.d.head)
		if pre != nil {
			pre(s)
		}
		s.check()
		for i := 0; i < depth; i++ {
			l := s.ops(maxBranches)
			sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
			o := l[c.Choose(len(l))]
			c.Op("%s", o.name)
			s.pruned = false
			o.run()
			c.State()
			s.check()
		}
		// whatever happened, a final prune leaves exactly the pending blocks
		s.prune()
		c.Op("final prune")
		s.check()
	}
}

func main() {
	Main(Suite{Property: "P01", QuickBudget: 200 * time.Second, ThoroughBudget: 30 * time.Minute, Scenarios: func(tier string) []Scenario {
		a, b, d := 7, 5, 4
		if tier == "thorough" {
			a, b, d = 8, 6, 5
		}
		rich := func(s *sys) {
			// main: 5 6 on the ledger 1-4; A: 7 8 off 5; B: 9 off 7; D: 10 11 off the ledger's 3
			s.add("t-1", s.mk(s.d.head))
			s.add("t-1", s.mk(s.heads["t-1"]))
			fork := func(from string, at *blk, n int) string {
				x := s.t.ForkBranch(s.t.Branches()[from], at.h, at.hash)
				s.adopt(x.ID(), at)
				for i := 0; i < n; i++ {
					s.add(x.ID(), s.mk(s.heads[x.ID()]))
				}
				return x.ID()
			}
			A := fork("t-1", s.all[4], 2)
			fork(A, s.all[6], 1)
			fork("t-1", s.all[2], 2)
		}
		empties := func(s *sys) {
			// main: 5 on the ledger 1-4, and an empty branch at the ledger's head
			s.add("t-1", s.mk(s.d.head))
			s.must("switch-empty", s.t.SwitchMainToEmpty())
			s.adopt(s.t.Main().ID(), s.d.head)
			s.must("switch", s.t.SwitchMainTo(s.t.Branches()["t-1"]))
		}
		return []Scenario{
			{Name: "empties", Bound: fmt.Sprintf("every sequence of %d operations from a ledger of 4 blocks, a main branch and an empty branch", d), Body: body(d, 5, 4, empties)},
			{Name: "shallow-ledger", Bound: fmt.Sprintf("every sequence of %d operations from a ledger of 1 block, at most 4 branches", a), Body: body(a, 4, 1, nil)},
			{Name: "deep-ledger", Bound: fmt.Sprintf("every sequence of %d operations from a ledger of 4 blocks, at most 3 branches", b), Body: body(b, 3, 4, nil)},
			{Name: "forest", Bound: fmt.Sprintf("every sequence of %d operations from a ledger of 4 blocks and 4 branches (nested, and one below the ledger's head)", d), Body: body(d, 5, 4, rich)},
		}
	}})
}
