// Property S02: the production statistics (per period, hour and day) are the counts of the present chain.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/cskit"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g"}

func addrs(n int) (l []types.Address) {
	for i := 0; i < n; i++ {
		l = append(l, Addr(i))
	}
	return
}

var states = func() []*State {
	s0 := NewState(names, addrs(7), []int64{70, 60, 50, 50, 30, 20, 10})
	s1 := NewState(names, addrs(7), []int64{70, 10, 50, 50, 30, 81, 0})
	moved := addrs(7)
	moved[1] = Addr(8)
	s2 := NewState(names, moved, []int64{70, 60, 50, 50, 30, 20, 10})
	s2.Regs[1].HisAddrList = []types.Address{Addr(1), Addr(8)}
	s2.Gone, s2.Regs = s2.Regs[:1], s2.Regs[1:]
	return []*State{s0, s1, s2}
}()

type world struct {
	ch   *Chain
	n    *Node
	g    *types.ConsensusGroupInfo
	lazy map[types.Address]bool
	fork uint64
}

func newWorld(interval int64) *world {
	w := &world{g: Group(types.SNAPSHOT_GID), lazy: map[types.Address]bool{}}
	w.g.Interval = interval
	w.ch = NewChain(states[0], w.g, Group(types.DELEGATE_GID))
	w.n = Start(w.ch, nil)
	return w
}

func (w *world) key(a types.Address) []byte {
	for i := 0; i < 10; i++ {
		if Addr(i) == a {
			return Key(i)
		}
	}
	panic("unknown producer")
}

func (w *world) last() time.Time { return *w.ch.Last().Timestamp }

// block appends a block in the first slot at or after the given instant whose producer works.
func (w *world) block(from time.Time, s *State) {
	m := NewModel(w.ch, w.g)
	for i := m.Index(from); ; i++ {
		for _, p := range m.Plan(i) {
			if p.Start.Before(from) || !p.Start.After(w.last()) || w.lazy[p.Addr] {
				continue
			}
			w.fork++
			w.ch.AddKey(p.Start, w.key(p.Addr), w.fork%2*w.fork*77, s)
			return
		}
	}
}

// next is the start of the period, hour or day after the latest block.
func (w *world) next(d time.Duration) time.Time {
	return Genesis.Add((w.last().Sub(Genesis)/d + 1) * d)
}

type count = map[types.Address]*[2]uint32

func say(s count) string {
	var l []string
	for a, v := range s {
		k := "?"
		for i := 0; i < 10; i++ {
			if Addr(i) == a {
				k = fmt.Sprint(i)
			}
		}
		l = append(l, fmt.Sprintf("%s:%d/%d", k, v[1], v[0]))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func conv(s *core.BaseStats) count {
	m := count{}
	for a, v := range s.Stats {
		m[a] = &[2]uint32{uint32(v.ExceptedBlockNum), uint32(v.BlockNum)}
	}
	return m
}

func (w *world) sum(m *Model, d time.Duration, i uint64) count {
	k := uint64(d / m.Len())
	return m.Sum(i*k, i*k+k)
}

// cmp compares a list of statistics with the model for the range [a, b].
func (w *world) cmp(c *C, m *Model, what string, d time.Duration, a, b uint64, got []*core.BaseStats, err error) {
	var want []string
	for i := a; i <= b; i++ {
		if s := w.sum(m, d, i); s != nil {
			want = append(want, fmt.Sprintf("%d%s", i, say(s)))
		}
	}
	var have []string
	for _, s := range got {
		have = append(have, fmt.Sprintf("%d%s", s.Index, say(conv(s))))
	}
	if err != nil || fmt.Sprint(have) != fmt.Sprint(want) {
		c.Fail("S02/"+what, "%s statistics %d to %d of %d blocks: %v, expected %v (%v)", what, a, b, len(w.ch.Blocks), have, want, err)
	}
	c.State()
}

func (w *world) periods(c *C, m *Model, a, b uint64) {
	l, err := w.n.CS.SBPReader().PeriodStats(a, b)
	var g []*core.BaseStats
	for _, s := range l {
		g = append(g, s.BaseStats)
	}
	w.cmp(c, m, "period", m.Len(), a, b, g, err)
}

func (w *world) hours(c *C, m *Model, a, b uint64) {
	l, err := w.n.CS.SBPReader().HourStats(a, b)
	var g []*core.BaseStats
	for _, s := range l {
		g = append(g, s.BaseStats)
	}
	w.cmp(c, m, "hour", time.Hour, a, b, g, err)
}

func (w *world) days(c *C, m *Model, a, b uint64) {
	l, err := w.n.CS.SBPReader().DayStats(a, b)
	if err != nil {
		c.Fail("S02/day", "day statistics %d to %d: %v", a, b, err)
	}
	owner := map[types.Address]string{}
	st := w.ch.LastState()
	for _, r := range append(append([]*types.Registration{}, st.Regs...), st.Gone...) {
		for _, x := range r.HisAddrList {
			owner[x] = r.Name
		}
	}
	k := 0
	for i := a; i <= b; i++ {
		s := w.sum(m, 24*time.Hour, i)
		if s == nil {
			continue
		}
		if k >= len(l) || l[k].Index != i {
			c.Fail("S02/day", "the statistics %d to %d lack day %d", a, b, i)
		}
		g := l[k]
		k++
		proof := w.ch.Before(Genesis.Add(24 * time.Hour * time.Duration(i+1)))
		cands := w.ch.States[w.ch.Known[proof.Hash]].Tally()
		sum, total := new(big.Int), uint64(0)
		want := map[string]*core.SbpStats{}
		for j := 0; j < len(cands) && j < int(w.g.RandRank); j++ {
			want[cands[j].Name] = &core.SbpStats{VoteCnt: &core.BigInt{Int: cands[j].Votes}}
			sum.Add(sum, cands[j].Votes)
		}
		for x, v := range s {
			total += uint64(v[1])
			if t := want[owner[x]]; t != nil {
				t.BlockNum += uint64(v[1])
				t.ExceptedBlockNum += uint64(v[0])
			}
		}
		bad := g.BlockTotal != total || g.VoteSum.Cmp(sum) != 0 || len(g.Stats) != len(want)
		for n, t := range want {
			x := g.Stats[n]
			bad = bad || x == nil || x.BlockNum != t.BlockNum || x.ExceptedBlockNum != t.ExceptedBlockNum || x.VoteCnt.Cmp(t.VoteCnt.Int) != 0
		}
		if bad {
			text := ""
			for n, t := range want {
				text += fmt.Sprintf("%s %d/%d votes %s; ", n, t.BlockNum, t.ExceptedBlockNum, t.VoteCnt)
			}
			text += "found "
			for n, t := range g.Stats {
				text += fmt.Sprintf("%s %d/%d votes %s; ", n, t.BlockNum, t.ExceptedBlockNum, t.VoteCnt)
			}
			c.Fail("S02/day", "day %d: total %d votes %s, expected %d %s: %s", i, g.BlockTotal, g.VoteSum, total, sum, text)
		}
	}
	if k != len(l) {
		c.Fail("S02/day", "the statistics %d to %d report a day without blocks", a, b)
	}
	c.State()
}

func (w *world) index(d time.Duration) uint64 { return uint64(w.last().Sub(Genesis) / d) }

func (w *world) check(c *C, order int) {
	m := NewModel(w.ch, w.g)
	p, h, d := m.Index(w.last()), w.index(time.Hour), w.index(24*time.Hour)
	all := []func(){
		func() { w.periods(c, m, 0, p+1); w.periods(c, m, p, p); w.periods(c, m, p/2, p+3) },
		func() {
			w.hours(c, m, 0, h)
			w.hours(c, m, h, h+2)
			for i := uint64(0); i <= h; i++ {
				w.hours(c, m, i, i)
			}
		},
		func() {
			for i := uint64(0); i <= d+1; i++ {
				w.days(c, m, i, i)
			}
			w.days(c, m, 0, d+1)
		},
		func() {
			for i := p; i+3 > p && i <= p; i-- {
				r, err := w.n.CS.SBPReader().GetSuccessRateByHour(i)
				want := m.Rates(i)
				bad := err != nil || len(r) != len(want)
				for a, v := range want {
					bad = bad || r[a] != v
				}
				if bad {
					c.Fail("S02/rate", "success rates up to period %d: %v, expected %v (%v)", i, r, want, err)
				}
				l, err := w.n.CS.API().ReadSuccessRate(i, i+1)
				have := count{}
				if err == nil && len(l) == 1 {
					for a, v := range l[0] {
						have[a] = &[2]uint32{v.ExpectedNum, v.FactualNum}
					}
				}
				from := uint64(0)
				if i >= 47 {
					from = i - 47
				}
				if s := m.Sum(from, i+1); say(have) != say(s) {
					c.Fail("S02/content", "counts of the 48 periods up to %d: %s, expected %s (%v)", i, say(have), say(s), err)
				}
			}
		},
	}
	for i := range all {
		all[(i+order)%len(all)]()
	}
}

var ops = []string{"block", "block in the next period", "block in the next hour", "block in the next day", "roll back 1", "roll back 4", "query periods", "query hours", "query days", "restart", "registrations change", "votes change", "block in the last slots of the hour"}

func (w *world) step(c *C, k int) {
	c.Op("%s", ops[k])
	m := NewModel(w.ch, w.g)
	switch k {
	case 0:
		w.block(w.last().Add(time.Second), nil)
	case 1:
		w.block(w.next(m.Len()), nil)
	case 2:
		w.block(w.next(time.Hour), nil)
	case 3:
		w.block(w.next(24*time.Hour), nil)
	case 4, 5:
		n := 1
		if k == 5 {
			n = 4
		}
		if len(w.ch.Blocks) < n+2 {
			c.Prune()
		}
		w.ch.Back(n)
		w.fork += 5
	case 6:
		w.periods(c, m, 0, m.Index(w.last()))
	case 7:
		w.hours(c, m, 0, w.index(time.Hour))
	case 8:
		w.days(c, m, 0, w.index(24*time.Hour))
	case 9:
		w.n.Stop()
		w.n = Start(w.ch, w.n)
	case 10:
		w.block(w.last().Add(time.Second), states[2])
	case 11:
		w.block(w.last().Add(time.Second), states[1])
	case 12:
		from := w.next(time.Hour).Add(-m.Len())
		if !from.After(w.last()) {
			c.Prune()
		}
		w.block(from, nil)
	}
}

func main() {
	Main(Suite{Property: "S02", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		few := func(q, t int) int {
			if quick {
				return q
			}
			return t
		}
		return []Scenario{
			{Name: "history", Bound: fmt.Sprintf("every sequence of %d of %v with periods of 20 minutes, after a start of 0, 1 or 2 working hours with an idle producer, everything compared at the end", few(4, 5), ops[:12]), Body: func(c *C) {
				w := newWorld(400)
				w.lazy[Addr(0)] = true
				for h := c.Choose(few(2, 3)); h > 0; h-- {
					for e := w.next(time.Hour).Add(-401 * time.Second); w.last().Before(e); {
						w.block(w.last().Add(time.Second), nil)
					}
				}
				for i := 0; i < few(4, 5); i++ {
					w.step(c, c.Choose(12))
				}
				w.check(c, int(w.fork)%4)
				w.check(c, 0)
				w.n.Stop()
			}},
			{Name: "days", Bound: fmt.Sprintf("every sequence of %d of: block in the last slots of the hour, in the next hour or day, day query, hour query, roll back, restart; the day boundary crossed in every way", few(5, 7)), Body: func(c *C) {
				w := newWorld(400)
				w.block(Genesis.Add(21*time.Hour), nil)
				for i := 0; i < few(5, 7); i++ {
					w.step(c, []int{2, 3, 8, 7, 4, 9, 12}[c.Choose(7)])
				}
				w.check(c, int(w.fork)%4)
				w.n.Stop()
			}},
			{Name: "long", Bound: "200 blocks over 3 days in periods of one minute with 4 patterns of gaps and idle producers, queried at 4 intervals, rolled back by 30 and regrown", Body: func(c *C) {
				w := newWorld(20)
				gap := []time.Duration{time.Second, 7 * time.Minute, 22 * time.Minute, 61 * time.Minute}[c.Choose(4)]
				every := []int{1000, 100, 29, 70}[c.Choose(4)]
				idle := c.Choose(3)
				for i := 0; i < idle; i++ {
					w.lazy[Addr(i)] = true
				}
				grow := func(n int) {
					for i := 0; i < n; i++ {
						w.block(w.last().Add(gap), nil)
						if (i+1)%every == 0 {
							w.check(c, i%4)
						}
					}
				}
				grow(70 * few(1, 3))
				w.ch.Back(30)
				w.fork += 7
				w.check(c, 1)
				grow(40)
				w.n.Stop()
				w.n = Start(w.ch, w.n)
				w.check(c, 2)
				w.n.Stop()
			}},
		}
	}, Assumptions: []string{"the ledger's answers about registrations, votes, balances, seeds and blocks by time are those of an in-memory ledger", "a period in which nobody produced counts nothing as due (the rule of the code)"}})
}
