// Property L10: questions about time, confirmations and random seeds are answered from the snapshot chain.
package main

import (
	"fmt"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

var makers = []*Acct{Producer, Users[3], Users[2]}

func must(c *C, err error) {
	if err != nil {
		c.Fail("L10/setup", "%v", err)
	}
}

type world struct {
	*World
	c    *C
	list []*ledger.SnapshotBlock
}

func open(c *C) *world {
	w, err := Open(Options{Dir: MkTemp("l10")})
	must(c, err)
	c.Defer(w.Remove)
	return &world{World: w, c: c, list: []*ledger.SnapshotBlock{w.Chain.GetLatestSnapshotBlock()}}
}

func (w *world) snap(gap time.Duration, by *Acct, seed uint64, commit uint64) {
	head := w.list[len(w.list)-1]
	ts := head.Timestamp.Add(gap)
	b := &ledger.SnapshotBlock{PrevHash: head.Hash, Height: head.Height + 1, Timestamp: &ts, Seed: seed, SnapshotContent: w.Chain.GetContentNeedSnapshot()}
	if commit != 0 {
		sh := ledger.ComputeSeedHash(commit, b.PrevHash, b.Timestamp)
		b.SeedHash = &sh
	}
	if upgrade.IsLeafUpgrade(b.Height) {
		b.Version = upgrade.GetLatestPoint().Version
	}
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = by.Sign(b.Hash.Bytes())
	nb, err := w.InsertSnapshot(b)
	must(w.c, err)
	w.list = append(w.list, nb)
}

func text(b *ledger.SnapshotBlock) string {
	if b == nil {
		return "none"
	}
	return fmt.Sprintf("%d/%s", b.Height, b.Hash.String()[:8])
}

func texts(l []*ledger.SnapshotBlock) (s []string) {
	for _, b := range l {
		s = append(s, text(b))
	}
	return s
}

// times checks the queries by time.
func (w *world) times() {
	c := w.c
	var ts []time.Time
	for _, b := range w.list {
		for _, d := range []time.Duration{-time.Second, -1, 0, 1, 500 * time.Millisecond, time.Second} {
			ts = append(ts, b.Timestamp.Add(d))
		}
	}
	ts = append(ts, w.list[0].Timestamp.Add(-time.Hour), w.list[len(w.list)-1].Timestamp.Add(time.Hour))
	for _, t := range ts {
		t := t
		var want *ledger.SnapshotBlock
		for _, b := range w.list {
			if b.Timestamp.Before(t) {
				want = b
			}
		}
		got, err := w.Chain.GetSnapshotHeaderBeforeTime(&t)
		if err != nil || text(got) != text(want) {
			c.Fail("L10/before", "the last block before %s is %s, the query says %s, %v", t.Sub(*w.list[0].Timestamp), text(want), text(got), err)
		}
		for _, end := range w.list {
			for _, p := range []*types.Address{nil, &makers[0].Addr, &makers[1].Addr, &Users[0].Addr} {
				var l []*ledger.SnapshotBlock
				for h := end.Height; h > 1; h-- {
					b := w.list[h-1]
					if !b.Timestamp.Before(t) && (p == nil || types.PubkeyToAddress(b.PublicKey) == *p) {
						l = append(l, b)
					}
				}
				got, err := w.Chain.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{Height: end.Height, Hash: end.Hash}, &t, p)
				if err != nil || fmt.Sprint(texts(got)) != fmt.Sprint(texts(l)) {
					c.Fail("L10/after", "blocks up to %d from %s on, of %v, are %v, the query says %v, %v", end.Height, t.Sub(*w.list[0].Timestamp), p, texts(l), texts(got), err)
				}
			}
		}
		c.AddTransitions(1)
	}
}

func timeScenario(n int) Scenario {
	gaps := []time.Duration{time.Second, 2 * time.Second, 7 * time.Second, 500 * time.Second}
	return Scenario{Name: "time", Bound: fmt.Sprintf("all chains of %d snapshot blocks with gaps of 1, 2, 7 and 500 s; every time within a second of a block", n), Timeout: 2 * time.Minute, Body: func(c *C) {
		w := open(c)
		for i := 0; i < n; i++ {
			g := gaps[c.Choose(len(gaps))]
			c.Op("+%v", g)
			w.snap(g, makers[i%2], 0, 0)
			if c.Fresh() {
				c.State()
				w.times()
			}
		}
	}}
}

// seeds checks the queries about random seeds.
func (w *world) seeds(call *ledger.AccountBlock, conf uint64, contract types.Address, ct, st int) {
	c := w.c
	random := func(h uint64, n int) uint64 {
		var sum uint64
		seen := map[types.Address]bool{}
		for i := int(h); i >= 1 && len(seen) < n; i-- {
			b := w.list[i-1]
			p := types.PubkeyToAddress(b.PublicKey)
			if b.Seed > 0 && !seen[p] {
				seen[p] = true
				sum += b.Seed
			}
		}
		return sum
	}
	for _, b := range w.list {
		for _, n := range []int{0, 1, 2, 3, 25} {
			if got, want := w.Chain.GetRandomSeed(b.Hash, n), random(b.Height, n); got != want {
				c.Fail("L10/random", "the seed of the last %d producers at %d is %d, the query says %d", n, b.Height, want, got)
			}
		}
	}
	for _, p := range makers {
		for _, b := range w.list {
			for _, d := range []time.Duration{0, 1} {
				t := b.Timestamp.Add(d)
				var want *ledger.SnapshotBlock
				for i := len(w.list); i >= 1 && want == nil; i-- {
					x := w.list[i-1]
					if types.PubkeyToAddress(x.PublicKey) != p.Addr || x.SeedHash == nil || !x.Timestamp.Before(t) {
						continue
					}
					published := false
					for _, y := range w.list[i:] {
						if types.PubkeyToAddress(y.PublicKey) == p.Addr && y.SeedHash != nil && ledger.ComputeSeedHash(y.Seed, x.PrevHash, x.Timestamp) == *x.SeedHash {
							published = true
						}
					}
					if !published {
						want = x
					}
				}
				got, err := w.Chain.GetLastUnpublishedSeedSnapshotHeader(p.Addr, t)
				if err != nil || text(got) != text(want) {
					c.Fail("L10/unpublished", "the last block before %s whose seed is not published is %s, the query says %s, %v", t.Sub(*w.list[0].Timestamp), text(want), text(got), err)
				}
			}
		}
	}
	top := uint64(len(w.list))
	var wantSb *ledger.SnapshotBlock
	count := 0
	for h := conf; conf > 0 && h <= top; h++ {
		if w.list[h-1].Seed > 0 {
			count++
			if count == st && wantSb == nil {
				wantSb = w.list[h-1]
			}
		}
	}
	for n := 1; n <= count+1; n++ {
		got, err := w.Chain.IsSeedConfirmedNTimes(call.Hash, uint64(n))
		if err != nil || got != (n <= count) {
			c.Fail("L10/seedconfirmed", "the call is confirmed by %d blocks with a seed, the query says at least %d: %v, %v", count, n, got, err)
		}
	}
	sb, err := w.Chain.GetSeedConfirmedSnapshotBlock(contract, call.Hash)
	if (err == nil) != (wantSb != nil) || text(sb) != text(wantSb) {
		c.Fail("L10/seedblock", "the call has its seeds at %s, the query says %s, %v", text(wantSb), text(sb), err)
	}
	wantSb = nil
	if conf > 0 && conf+uint64(ct)-1 <= top {
		wantSb = w.list[conf+uint64(ct)-2]
	}
	sb, err = w.Chain.GetSnapshotBlockByContractMeta(contract, call.Hash)
	if (err == nil) != (wantSb != nil) || text(sb) != text(wantSb) {
		c.Fail("L10/metablock", "the call is confirmed often enough at %s, the query says %s, %v", text(wantSb), text(sb), err)
	}
	c.AddTransitions(1)
	// the contract may receive exactly when both are reached
	want := wantSb != nil && count >= st
	vb, _, err := w.GenReceive(contract, call, Producer)
	if vb == nil {
		if want {
			c.Fail("L10/receive", "the contract cannot receive the call: %v", err)
		}
		return
	}
	task, _, err := w.V.VerifyPoolAccountBlock(vb.AccountBlock, w.Chain.GetLatestSnapshotBlock())
	if (err == nil && task == nil) != want {
		c.Fail("L10/receive", "%d confirmations and %d seeds are needed, there are %d and %d; the verifier says %v", ct, st, top+1-conf, count, err)
	}
}

func seedScenario(n int, ct, st int) Scenario {
	kinds := []string{"no seed", "commits", "commits and publishes", "commits and publishes another"}
	return Scenario{Name: fmt.Sprintf("seed-%d-%d", ct, st), Bound: fmt.Sprintf("all chains of %d snapshot blocks of two producers that commit to and publish seeds in four ways; a contract that needs %d confirmations and %d seeds", n, ct, st), Timeout: 2 * time.Minute, Body: func(c *C) {
		w := open(c)
		m := CreateMsg(ContractOwners[0].Addr, InitCode(ScriptCode()), uint8(ct), uint8(st), 10, types.DELEGATE_GID, new(big.Int))
		cr, err := w.SendMsg(ContractOwners[0], m)
		must(c, err)
		for i := 0; i < ct || i < st; i++ {
			w.snap(time.Second, makers[2], 1000+uint64(i), 0)
		}
		_, err = w.Receive(cr, Producer)
		must(c, err)
		w.snap(time.Second, makers[2], 900, 0) // a seed just before the call is confirmed
		call, err := w.Send(Users[0], cr.ToAddress, ledger.ViteTokenId, big.NewInt(5), ScriptData(1, 2, ModeStore, Users[1].Addr))
		must(c, err)
		conf := uint64(0)
		last := map[*Acct]uint64{}
		for i := 0; i < n; i++ {
			by := makers[c.Choose(2)]
			k := c.Choose(len(kinds))
			c.Op("%s %s", map[*Acct]string{makers[0]: "A", makers[1]: "B"}[by], kinds[k])
			var seed, commit uint64
			if k > 0 {
				commit = uint64(100 + i)
			}
			if k == 2 {
				seed = last[by]
			}
			if k == 3 {
				seed = uint64(5000 + i)
			}
			w.snap(time.Second, by, seed, commit)
			if commit != 0 {
				last[by] = commit
			}
			if conf == 0 {
				conf = uint64(len(w.list))
			}
			if c.Fresh() {
				c.State()
				w.seeds(call, conf, cr.ToAddress, ct, st)
			}
		}
	}}
}

// draw checks that the number a contract draws depends on the seeds of the producers.
func draw() Scenario {
	return Scenario{Name: "draw", Bound: "two chains that differ only in the published seeds; two calls", Timeout: time.Minute, Body: func(c *C) {
		var got [2][2]uint64
		from := []types.Hash{types.DataHash([]byte("1")), types.DataHash([]byte("2"))}
		for i := range got {
			w := open(c)
			w.snap(time.Second, makers[0], 0, 5)
			w.snap(time.Second, makers[0], uint64(5+i), 0)
			for j := range from {
				var err error
				got[i][j], err = w.Chain.GetSeed(w.list[2], from[j])
				must(c, err)
			}
			c.State()
		}
		if got[0][0] == got[0][1] {
			c.Fail("L10/seed-of-call", "two calls draw the same number")
		}
		if got[0] == got[1] {
			c.Fail("L10/seed-ignores-producers", "the number drawn does not depend on the seeds that the producers published")
		}
	}}
}

// long checks the limits of the search for seeds and times on a long chain.
func long(n int) Scenario {
	return Scenario{Name: "long", Bound: fmt.Sprintf("one chain of %d snapshot blocks", n), Timeout: 5 * time.Minute, Body: func(c *C) {
		w := open(c)
		w.snap(time.Second, makers[1], 77, 78)
		for i := 0; i < n; i++ {
			g := time.Second
			if i%50 == 49 {
				g = 90 * time.Second
			}
			w.snap(g, makers[0], 0, 0)
		}
		for _, h := range []int{3, 600, 601, 602, 603, 604, n} {
			want := uint64(0)
			if h-600 <= 2 {
				want = 77
			}
			if got := w.Chain.GetRandomSeed(w.list[h-1].Hash, 25); got != want {
				c.Fail("L10/random", "the seed at %d is %d, the query says %d", h, want, got)
			}
		}
		for i := 0; i < len(w.list); i++ {
			for _, d := range []time.Duration{-time.Second, 0, time.Second, 500 * time.Millisecond} {
				t := w.list[i].Timestamp.Add(d)
				var want *ledger.SnapshotBlock
				for _, b := range w.list {
					if b.Timestamp.Before(t) {
						want = b
					}
				}
				got, err := w.Chain.GetSnapshotHeaderBeforeTime(&t)
				if err != nil || text(got) != text(want) {
					c.Fail("L10/before", "the last block before %s is %s, the query says %s, %v", t.Sub(*w.list[0].Timestamp), text(want), text(got), err)
				}
			}
		}
		c.State()
	}}
}

func main() {
	Silence()
	Main(Suite{Property: "L10", QuickBudget: 120 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		if tier == "thorough" {
			return []Scenario{timeScenario(6), seedScenario(5, 2, 2), seedScenario(5, 1, 1), seedScenario(4, 3, 1), seedScenario(4, 3, 2), long(1500), draw()}
		}
		return []Scenario{timeScenario(4), seedScenario(3, 2, 2), seedScenario(3, 1, 1), seedScenario(3, 3, 1), long(700), draw()}
	}})
}
