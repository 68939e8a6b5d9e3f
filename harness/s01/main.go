// Property S01: every node derives the same producers and slots from the confirmed ledger.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/cskit"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g"}

func addrs(n int) (l []types.Address) {
	for i := 0; i < n; i++ {
		l = append(l, Addr(i))
	}
	return
}

var states = func() []*State {
	s0 := NewState(names, addrs(7), []int64{70, 60, 50, 50, 30, 20, 10})
	s1 := NewState(names, addrs(7), []int64{70, 10, 50, 50, 30, 81, 0})
	moved := addrs(7)
	moved[1] = Addr(8)
	s2 := NewState(names, moved, []int64{70, 60, 50, 50, 30, 20, 10})
	s2.Regs[1].HisAddrList = []types.Address{Addr(1), Addr(8)}
	s2.Gone, s2.Regs = s2.Regs[:1], s2.Regs[1:]
	return []*State{s0, s1, s2}
}()

// elect runs the real election over a list of candidates.
func elect(r Rules, l []Cand, rates map[types.Address]int32, seed, height uint64) []types.Address {
	g := types.ConsensusGroupInfo{Gid: r.Gid, NodeCount: uint8(r.Nodes), RandCount: uint8(r.RandCount), RandRank: uint8(r.RandRank), Interval: 1, PerCount: 3, Repeat: 1}
	info := core.NewGroupInfo(Genesis, g)
	al := core.NewAlgo(info)
	var vs []*core.Vote
	for _, c := range l {
		vs = append(vs, &core.Vote{Name: c.Name, Addr: c.Addr, Balance: new(big.Int).Set(c.Votes)})
	}
	hh := &ledger.HashHeight{Height: height}
	sd := core.NewSeedInfo(seed)
	return core.ConvertVoteToAddress(al.ShuffleVotes(al.FilterVotes(core.NewVoteAlgoContext(vs, hh, rates, sd)), hh, sd))
}

func same(a, b []types.Address) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sel(c *C, r Rules, l []Cand, rates map[types.Address]int32, seed, height uint64) {
	want := r.Select(l, rates, seed, height)
	got := elect(r, l, rates, seed, height)
	if !same(got, want) {
		c.Fail("S01/elected", "%+v: candidates %v rates %v seed %d height %d elect %v, expected %v", r, show(l), rates, seed, height, ids(got), ids(want))
	}
	rev := make([]Cand, len(l))
	for i := range l {
		rev[len(l)-1-i] = l[i]
	}
	if got := elect(r, rev, rates, seed, height); !same(got, want) {
		c.Fail("S01/elected-order", "%+v: candidates in reverse order %v rates %v seed %d elect %v, expected %v", r, show(l), rates, seed, ids(got), ids(want))
	}
	c.AddStates(1)
	c.AddTransitions(2)
}

func show(l []Cand) (s string) {
	for _, c := range l {
		s += fmt.Sprintf("%s:%s ", c.Name, c.Votes)
	}
	return
}

func ids(l []types.Address) (r []int) {
	for _, a := range l {
		k := -1
		for i := 0; i < 40; i++ {
			if Addr(i) == a {
				k = i
			}
		}
		r = append(r, k)
	}
	return
}

// world is a chain, a node on it and the groups.
type world struct {
	ch   *Chain
	n    *Node
	snap *types.ConsensusGroupInfo
	del  *types.ConsensusGroupInfo
	lazy map[types.Address]bool
	st   int
	fork uint64
}

func newWorld(repeat int) *world {
	w := &world{snap: Group(types.SNAPSHOT_GID), del: Group(types.DELEGATE_GID), lazy: map[types.Address]bool{}, fork: 1}
	w.del.CheckLevel = 1
	w.del.PerCount = 2
	if repeat == 2 {
		w.snap.Interval, w.snap.PerCount, w.snap.Repeat = 5, 2, 2
	}
	w.ch = NewChain(states[0], w.snap, w.del)
	w.n = Start(w.ch, nil)
	return w
}

func (w *world) key(a types.Address) []byte {
	for i := 0; i < 10; i++ {
		if Addr(i) == a {
			return Key(i)
		}
	}
	panic("unknown producer")
}

// block appends a block in the first slot after the latest block, at or after the given instant, whose producer works.
func (w *world) block(from time.Time, s *State) *ledger.SnapshotBlock {
	m := NewModel(w.ch, w.snap)
	for i := m.Index(from); ; i++ {
		for _, p := range m.Plan(i) {
			if p.Start.Before(from) || !p.Start.After(*w.ch.Last().Timestamp) || w.lazy[p.Addr] {
				continue
			}
			w.fork++
			seed := uint64(0)
			if w.fork%3 == 0 {
				seed = w.fork * 77
			}
			return w.ch.AddKey(p.Start, w.key(p.Addr), seed, s)
		}
	}
}

func (w *world) last() time.Time { return *w.ch.Last().Timestamp }

func (w *world) query(c *C) {
	m := NewModel(w.ch, w.snap)
	cur := m.Index(w.last())
	w.plan(c, m, cur+1)
	w.plan(c, m, cur+2)
	w.plan(c, m, cur)
}

func (w *world) plan(c *C, m *Model, i uint64) {
	evs, idx, err := w.n.CS.ReadByIndex(m.G.Gid, i)
	want := m.Plan(i)
	bad := err != nil || idx != i || len(evs) != len(want)
	for k := 0; !bad && k < len(want); k++ {
		e := evs[k]
		bad = e.Address != want[k].Addr || !e.Stime.Equal(want[k].Start) || !e.Timestamp.Equal(want[k].Start) || !e.Etime.Equal(want[k].Start.Add(time.Duration(m.G.Interval)*time.Second)) || !e.PeriodStime.Equal(m.Time(i)) || !e.PeriodEtime.Equal(m.Time(i+1)) || e.Gid != m.G.Gid
	}
	if bad {
		s := ""
		for _, e := range evs {
			s += fmt.Sprintf("%s@%s ", name(e.Address), e.Stime.Sub(Genesis))
		}
		s += "expected "
		for _, e := range want {
			s += fmt.Sprintf("%s@%s ", name(e.Addr), e.Start.Sub(Genesis))
		}
		c.Fail("S01/plan", "group %s period %d (%v): %s; chain of %d blocks", m.G.Gid, i, err, s, len(w.ch.Blocks))
	}
}

func name(a types.Address) string { return fmt.Sprint(ids([]types.Address{a})[0]) }

// check compares everything the module says about the present chain with the model.
func (w *world) check(c *C) {
	m := NewModel(w.ch, w.snap)
	d := NewModel(w.ch, w.del)
	cur := m.Index(w.last())
	for i := uint64(0); i <= cur+2; i++ {
		w.plan(c, m, i)
		c.State()
	}
	for i := uint64(0); i <= d.Index(w.last())+1; i++ {
		w.plan(c, d, i)
	}
	// who may produce when
	for i := cur; i <= cur+1; i++ {
		own := map[int64]types.Address{}
		for _, p := range m.Plan(i) {
			if _, dup := own[p.Start.Unix()]; dup {
				c.Fail("S01/slot", "two producers for one slot of period %d", i)
			}
			own[p.Start.Unix()] = p.Addr
		}
		for t := m.Time(i); t.Before(m.Time(i + 1)); t = t.Add(10 * time.Second) {
			for k := 0; k < 9; k++ {
				for _, off := range []time.Duration{0, time.Second} {
					at := t.Add(off)
					b := &ledger.SnapshotBlock{Height: uint64(len(w.ch.Blocks) + 1), PrevHash: w.ch.Last().Hash, Timestamp: &at, PublicKey: Key(k)}
					ok, err := w.n.CS.VerifySnapshotProducer(b)
					a, has := own[at.Unix()]
					if want := has && a == Addr(k); err != nil || ok != want {
						c.Fail("S01/verify", "producer %d at %s of period %d accepted=%v, expected %v (%v)", k, at.Sub(m.Time(i)), i, ok, want, err)
					}
				}
			}
		}
	}
	// producers of contract blocks
	in := map[types.Address]bool{}
	for _, a := range d.Elected(d.Index(w.last())) {
		in[a] = true
	}
	var all, bad []*ledger.AccountBlock
	for k := 0; k < 9; k++ {
		ca := types.Address{}
		ca[20] = 1
		w.ch.Contract[ca] = types.DELEGATE_GID
		ab := &ledger.AccountBlock{AccountAddress: ca, PublicKey: Key(k)}
		ok, err := w.n.CS.VerifyAccountProducer(ab)
		if err != nil || ok != in[Addr(k)] {
			c.Fail("S01/verify-account", "producer %d of contract blocks accepted=%v, expected %v (%v)", k, ok, in[Addr(k)], err)
		}
		all = append(all, ab)
		if !in[Addr(k)] {
			bad = append(bad, ab)
		}
	}
	got, err := w.n.CS.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{types.DELEGATE_GID: all})
	if err != nil || len(got) != len(bad) {
		c.Fail("S01/verify-accounts", "%d of %d contract blocks refused, expected %d (%v)", len(got), len(all), len(bad), err)
	}
	for i := range got {
		if got[i] != bad[i] {
			c.Fail("S01/verify-accounts", "the wrong contract block is refused")
		}
	}
	// rates and votes
	for i := uint64(0); i <= cur; i++ {
		r, err := w.n.CS.SBPReader().GetSuccessRateByHour(i)
		want := m.Rates(i)
		bad := err != nil || len(r) != len(want)
		for a, v := range want {
			if r[a] != v {
				bad = true
			}
		}
		if bad {
			c.Fail("S01/rate", "success rates up to period %d: %v, expected %v (%v)", i, r, want, err)
		}
	}
	for _, b := range w.ch.Blocks {
		vs, h, err := w.n.CS.API().ReadVoteMap(b.Timestamp.Add(time.Second))
		s, _ := w.stateOf(b.Hash)
		want := s.Tally()
		bad := err != nil || h.Hash != b.Hash || len(vs) != len(want)
		for k := 0; !bad && k < len(want); k++ {
			bad = vs[k].Name != want[k].Name || vs[k].Balance.Cmp(want[k].Votes) != 0 || vs[k].CurrentAddr != want[k].Addr
		}
		if bad {
			c.Fail("S01/votes", "votes at height %d (%v) differ from the tally", b.Height, err)
		}
	}
}

func (w *world) stateOf(h types.Hash) (*State, error) {
	return w.ch.States[w.ch.Known[h]], nil
}

// preload makes the module compute an election in the background, as it does when a period begins.
func (w *world) preload(c *C) {
	l := w.n.CS.(interfaces.EventListener)
	m := NewModel(w.ch, w.snap)
	mu, asked := &w.n.Mu, w.n.Asked
	w.n.CS.Start()
	next := m.Time(m.Index(w.last()) + 1)
	send := func(height uint64, done func() bool) {
		b := &ledger.SnapshotBlock{Height: height, Timestamp: &next}
		for i := 0; ; i++ {
			if err := l.InsertSnapshotBlocks([]*ledger.SnapshotChunk{{SnapshotBlock: b}}); err != nil {
				panic(err)
			}
			time.Sleep(20 * time.Microsecond)
			mu.Lock()
			ok := done()
			mu.Unlock()
			if ok {
				return
			}
			if i > 3000 {
				c.Prune()
			}
		}
	}
	target := w.ch.Last()
	if !asked[target.Hash] {
		send(target.Height+1, func() bool { return asked[target.Hash] })
	}
	// a second request is taken only when the first is finished
	dummy := types.Hash{1, 2, 3, byte(len(asked)), byte(len(asked) >> 8)}
	w.ch.Special = &ledger.SnapshotBlock{Height: 1 << 40, Hash: dummy, Timestamp: &next}
	send(1<<40+1, func() bool { return asked[dummy] })
	w.n.CS.Stop()
	w.ch.Special = nil
}

func (w *world) base(lazy int, periods int) {
	switch lazy {
	case 1:
		w.lazy[Addr(0)] = true
	case 2:
		w.lazy[Addr(0)], w.lazy[Addr(1)] = true, true
	case 3:
		w.lazy[Addr(2)], w.lazy[Addr(4)] = true, true
	}
	for NewModel(w.ch, w.snap).Index(w.last()) < uint64(periods) {
		w.block(w.last().Add(time.Second), nil)
	}
}

var _ consensus.Consensus

func main() {
	Main(Suite{Property: "S01", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		few := func(q, t int) int {
			if quick {
				return q
			}
			return t
		}
		levels := []int32{-2, -1, 0, 799999, 800000, 800001, 1000000}
		return []Scenario{
			{Name: "elect-votes", Bound: fmt.Sprintf("2 to %d candidates with every combination of %d vote totals, 3 or 4 seats, every number of random seats and ranks, 3 seeds", few(6, 7), 3), Body: func(c *C) {
				n := 2 + c.Choose(few(5, 6))
				nodes := 3 + c.Choose(2)
				rank := nodes + c.Choose(4)
				rc := c.Choose(3)
				var rec func(l []Cand)
				rec = func(l []Cand) {
					if len(l) == n {
						for _, seed := range []uint64{0, 1, 1 << 63} {
							sel(c, Rules{nodes, rc, rank, types.SNAPSHOT_GID}, l, nil, seed, 17)
						}
						return
					}
					for v := int64(0); v < 3; v++ {
						rec(append(l, Cand{names[(len(l)*3)%7], Addr(len(l)), big.NewInt(v * 1000)}))
					}
				}
				rec(nil)
			}},
			{Name: "elect-rates", Bound: "6 candidates for 3 seats, every combination of rates of the 3 leaders and the 3 others around the line, with distinct and equal votes", Body: func(c *C) {
				eq := c.Bool()
				seed := uint64(c.Choose(few(1, 3)))
				a, b := levels[c.Choose(7)], levels[c.Choose(7)]
				var l []Cand
				for i := 0; i < 6; i++ {
					v := int64(100 - i)
					if eq {
						v = int64(100 - i/3)
					}
					l = append(l, Cand{names[i], Addr(i), big.NewInt(v)})
				}
				for x := 0; x < 7*7*7*7; x++ {
					rates := map[types.Address]int32{}
					set := func(i int, v int32) {
						if v != -2 {
							rates[Addr(i)] = v
						}
					}
					set(0, a)
					set(1, b)
					for i, y := 2, x; i < 6; i, y = i+1, y/7 {
						set(i, levels[y%7])
					}
					sel(c, Rules{3, 1, 6, types.SNAPSHOT_GID}, l, rates, seed, uint64(x))
				}
			}},
			{Name: "elect-large", Bound: "the real group of 25 seats out of 100 ranked, 20 to 110 candidates, random seats 0 to 9, 8 seeds, with and without weak producers", Body: func(c *C) {
				n := []int{20, 25, 26, 30, 33, 34, 50, 99, 100, 101, 110}[c.Choose(11)]
				rc := c.Choose(10)
				weak := c.Bool()
				for seed := uint64(0); seed < uint64(few(8, 40)); seed++ {
					r := rand.New(rand.NewSource(int64(seed) + 5))
					var l []Cand
					rates := map[types.Address]int32{}
					for i := 0; i < n; i++ {
						l = append(l, Cand{fmt.Sprintf("s%d", i), types.AddressQuota, big.NewInt(int64(r.Intn(n)) * 1000000007)})
						l[i].Addr[0], l[i].Addr[20] = byte(i), 0
						if weak {
							rates[l[i].Addr] = int32(r.Intn(5)) * 250000
						}
					}
					sel(c, Rules{25, rc, 100, types.DELEGATE_GID}, l, rates, seed*12345, seed)
				}
			}},
			{Name: "elect-mid", Bound: "6 and 9 seats, 5 to 24 candidates, random seats 0 to 4, 12 to 24 ranked", Body: func(c *C) {
				nodes := 6 + 3*c.Choose(2)
				n := 5 + c.Choose(20)
				for rc := 0; rc < 5; rc++ {
					for _, rank := range []int{12, 13, 18, 24} {
						for seed := uint64(0); seed < 3; seed++ {
							var l []Cand
							for i := 0; i < n; i++ {
								l = append(l, Cand{fmt.Sprintf("s%d", i), Addr(i), big.NewInt(int64(i*7%n) * 1000)})
							}
							sel(c, Rules{nodes, rc, rank, types.SNAPSHOT_GID}, l, nil, seed*99, 3)
						}
					}
				}
			}},
			{Name: "seed-set", Bound: "chains whose last 1 to 30 blocks carry seeds of 1 to 30 producers: the schedules of both groups", Body: func(c *C) {
				w := newWorld(1)
				n, per := 1+c.Choose(30), 1+c.Choose(30)
				if per > n {
					c.Prune()
				}
				for i := 0; i < n; i++ {
					w.ch.Add(Genesis.Add(time.Duration(i+1)*3*time.Second), i%per, 1+uint64(1)<<uint(i), nil)
				}
				m, d := NewModel(w.ch, w.snap), NewModel(w.ch, w.del)
				for i := uint64(0); i < 5; i++ {
					w.plan(c, m, i)
					w.plan(c, d, i)
					c.State()
				}
				w.n.Stop()
			}},
			{Name: "slots", Bound: "every group shape of up to 4 nodes, 3 per turn, 2 repeats, 0 to all members; every second of 3 periods", Body: func(c *C) {
				g := types.ConsensusGroupInfo{Gid: types.SNAPSHOT_GID, NodeCount: uint8(1 + c.Choose(4)), Interval: int64(1 + c.Choose(3)), PerCount: int64(1 + c.Choose(3)), Repeat: uint16(1 + c.Choose(3)), RandRank: 9}
				info := core.NewGroupInfo(Genesis, g)
				m := &Model{G: &g}
				n := c.Choose(int(g.NodeCount) + 1)
				for i := uint64(0); i < 3; i++ {
					st, et := info.Index2Time(i)
					if !st.Equal(m.Time(i)) || !et.Equal(m.Time(i+1)) {
						c.Fail("S01/time", "period %d is %s-%s, expected %s-%s", i, st, et, m.Time(i), m.Time(i+1))
					}
					for t := m.Time(i); t.Before(m.Time(i + 1)); t = t.Add(500 * time.Millisecond) {
						if j := info.Time2Index(t); j != i {
							c.Fail("S01/index", "%s belongs to period %d, expected %d", t, j, i)
						}
						c.AddStates(1)
					}
					ps := info.GenPlanByAddress(i, addrs(n))
					k := 0
					for r := 0; r < int(g.Repeat); r++ {
						for a := 0; a < n; a++ {
							for p := 0; p < int(g.PerCount); p++ {
								at := m.Time(i).Add(time.Duration(g.Interval*(int64(r)*int64(g.NodeCount)*g.PerCount+int64(a)*g.PerCount+int64(p))) * time.Second)
								if k >= len(ps) || ps[k].Member != Addr(a) || !ps[k].STime.Equal(at) || !ps[k].ETime.Equal(at.Add(time.Duration(g.Interval)*time.Second)) {
									c.Fail("S01/slots", "slot %d of period %d of %+v with %d members is wrong", k, i, g, n)
								}
								k++
							}
						}
					}
					if k != len(ps) {
						c.Fail("S01/slots", "%d slots, expected %d", len(ps), k)
					}
				}
				if over := info.GenPlanByAddress(0, addrs(int(g.NodeCount)+1)); len(over) != 0 {
					c.Fail("S01/slots", "a plan for more members than seats")
				}
			}},
			{Name: "history", Bound: fmt.Sprintf("every sequence of %d blocks, gaps, changes of votes and registrations, rollbacks, queries, background elections and restarts after 5 periods with idle producers; all periods, slots and producers compared", few(4, 5)), Body: func(c *C) {
				w := newWorld(1)
				w.base(few(1, 0)+c.Choose(few(2, 4)), 5)
				for i := 0; i < few(4, 5); i++ {
					k := c.Choose(9)
					c.Op("%s", []string{"block", "block in the next period", "block two periods on", "votes change", "registrations change", "roll back", "query", "restart", "background election"}[k])
					switch k {
					case 0:
						w.block(w.last().Add(time.Second), nil)
					case 1, 2:
						m := NewModel(w.ch, w.snap)
						w.block(m.Time(m.Index(w.last())+uint64(k)), nil)
					case 3:
						w.block(w.last().Add(time.Second), states[1])
					case 4:
						w.block(w.last().Add(time.Second), states[2])
					case 5:
						if len(w.ch.Blocks) < 5 {
							c.Prune()
						}
						w.ch.Back(3)
						w.fork += 5
					case 6:
						w.query(c)
					case 7:
						w.n.Stop()
						w.n = Start(w.ch, w.n)
					case 8:
						w.preload(c)
					}
				}
				w.check(c)
				w.n.Stop()
			}},
			{Name: "long-history", Bound: "60 periods with every pattern of idle producers: rates over a whole window", Body: func(c *C) {
				w := newWorld(1 + c.Choose(2))
				w.base(c.Choose(4), 20)
				w.lazy = map[types.Address]bool{}
				w.base(c.Choose(4), 40)
				w.lazy = map[types.Address]bool{}
				w.base(c.Choose(4), 58)
				w.check(c)
				w.ch.Back(7)
				w.base(0, 57)
				w.check(c)
				w.n.Stop()
			}},
		}
	}, Assumptions: []string{"the ledger's answers about registrations, votes, balances and seeds at a snapshot block are those of an in-memory ledger (the real ones are checked by L02, L09 and C03)", "groups have at least 3 seats and rank at least as many candidates as seats", "the published random number generator (Go's math/rand) is part of the rules"}})
}
