package kit

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
)

// Model is what a history of blocks means, computed from the blocks alone.
type Model struct {
	Sbs    []*ledger.SnapshotBlock
	Chains map[types.Address][]*ledger.AccountBlock
	ByHash map[types.Hash]*ledger.AccountBlock // sends inside receives included
	Parent map[types.Hash]*ledger.AccountBlock // receive block a send is part of
	Conf   map[types.Hash]uint64               // height of the confirming snapshot block
	Recv   map[types.Hash]*ledger.AccountBlock // receive block of a send
	Order  []*ledger.AccountBlock              // insertion order
	Seq    map[types.Hash]int                  // position of a block in the history, snapshot blocks included
	SbSeq  []int
	Gen    map[types.Address]map[types.TokenTypeId]*big.Int
}

var genesisBlocks struct {
	sb  *ledger.SnapshotBlock
	abs []*ledger.AccountBlock
}

// learnGenesis reads the genesis blocks, which are given.
func learnGenesis(w *World) {
	if genesisBlocks.sb != nil {
		return
	}
	genesisBlocks.sb = w.Chain.GetGenesisSnapshotBlock()
	for a, hh := range genesisBlocks.sb.SnapshotContent {
		for h := uint64(1); h <= hh.Height; h++ {
			b, err := w.Chain.GetAccountBlockByHeight(a, h)
			if err != nil || b == nil {
				panic(fmt.Sprint("kit: genesis block ", a, h, err))
			}
			genesisBlocks.abs = append(genesisBlocks.abs, b)
		}
	}
	sort.Slice(genesisBlocks.abs, func(i, j int) bool {
		x, y := genesisBlocks.abs[i], genesisBlocks.abs[j]
		if c := bytes.Compare(x.AccountAddress[:], y.AccountAddress[:]); c != 0 {
			return c < 0
		}
		return x.Height < y.Height
	})
}

// Model computes the meaning of the current history.
func (h *Hist) Model() *Model {
	learnGenesis(h.W)
	m := &Model{Chains: map[types.Address][]*ledger.AccountBlock{}, ByHash: map[types.Hash]*ledger.AccountBlock{}, Parent: map[types.Hash]*ledger.AccountBlock{},
		Conf: map[types.Hash]uint64{}, Recv: map[types.Hash]*ledger.AccountBlock{}, Seq: map[types.Hash]int{}, Gen: map[types.Address]map[types.TokenTypeId]*big.Int{}}
	for a, l := range h.W.Gen.AccountBalanceMap {
		addr, err := types.HexToAddress(a)
		if err != nil {
			panic(err)
		}
		m.Gen[addr] = map[types.TokenTypeId]*big.Int{}
		for t, n := range l {
			id, err := types.HexToTokenTypeId(t)
			if err != nil {
				panic(err)
			}
			m.Gen[addr][id] = n
		}
	}
	n := 0
	for _, b := range genesisBlocks.abs {
		m.add(b, n)
		n++
	}
	m.addSb(genesisBlocks.sb, n)
	for _, e := range h.Log {
		n++
		if e.SB != nil {
			m.addSb(e.SB, n)
		} else {
			m.add(e.AB, n)
		}
	}
	return m
}

func (m *Model) add(b *ledger.AccountBlock, n int) {
	m.Chains[b.AccountAddress] = append(m.Chains[b.AccountAddress], b)
	m.ByHash[b.Hash] = b
	m.Order = append(m.Order, b)
	m.Seq[b.Hash] = n
	for _, s := range b.SendBlockList {
		m.ByHash[s.Hash] = s
		m.Parent[s.Hash] = b
	}
	if b.IsReceiveBlock() && b.FromBlockHash != (types.Hash{}) {
		m.Recv[b.FromBlockHash] = b
	}
}

func (m *Model) addSb(b *ledger.SnapshotBlock, n int) {
	m.Sbs = append(m.Sbs, b)
	m.SbSeq = append(m.SbSeq, n)
	for a, hh := range b.SnapshotContent {
		for _, x := range m.Chains[a] {
			if x.Height <= hh.Height && m.Conf[x.Hash] == 0 {
				m.Conf[x.Hash] = b.Height
				for _, s := range x.SendBlockList {
					m.Conf[s.Hash] = b.Height
				}
			}
		}
	}
}

// Pending are the sends to a that nobody received, at most up to snapshot height top (0: all).
func (m *Model) Pending(a types.Address) []*ledger.AccountBlock {
	var l []*ledger.AccountBlock
	for _, b := range m.Order {
		for _, s := range append([]*ledger.AccountBlock{b}, b.SendBlockList...) {
			if s.IsSendBlock() && s.ToAddress == a && m.Recv[s.Hash] == nil {
				l = append(l, s)
			}
		}
	}
	return l
}

// Balance of a after the blocks keep accepts.
func (m *Model) Balance(a types.Address, t types.TokenTypeId, keep func(b *ledger.AccountBlock) bool) *big.Int {
	n := new(big.Int)
	if g := m.Gen[a][t]; g != nil {
		n.Set(g)
	}
	spend := func(b *ledger.AccountBlock) {
		if b.TokenId == t && b.Amount != nil {
			n.Sub(n, b.Amount)
		}
		if t == ledger.ViteTokenId && b.Fee != nil {
			n.Sub(n, b.Fee)
		}
	}
	for _, b := range m.Chains[a] {
		if !keep(b) {
			continue
		}
		if b.IsSendBlock() {
			spend(b)
			continue
		}
		s := m.ByHash[b.FromBlockHash]
		if s == nil {
			continue // genesis
		}
		if s.TokenId == t && s.Amount != nil {
			n.Add(n, s.Amount)
		}
		failed := len(b.Data) == 33 && b.Data[32] == 1
		if failed && t == ledger.ViteTokenId && s.Fee != nil && types.IsContractAddr(a) {
			n.Add(n, s.Fee) // given back below
		}
		for _, x := range b.SendBlockList {
			spend(x)
		}
	}
	return n
}

// ConfirmedAt accepts the blocks the snapshot block at height and those before it confirm.
func (m *Model) ConfirmedAt(height uint64) func(b *ledger.AccountBlock) bool {
	return func(b *ledger.AccountBlock) bool { return m.Conf[b.Hash] != 0 && m.Conf[b.Hash] <= height }
}

// All accepts everything.
func All(*ledger.AccountBlock) bool { return true }

// Storage of a scripted contract: the values its successful calls stored.
func (m *Model) Storage(a types.Address, keep func(b *ledger.AccountBlock) bool) map[string][]byte {
	st := map[string][]byte{}
	for _, b := range m.Chains[a] {
		s := m.ByHash[b.FromBlockHash]
		if !keep(b) || s == nil || s.BlockType == ledger.BlockTypeSendCreate || len(b.Data) != 33 || b.Data[32] != 0 {
			continue
		}
		word := func(i int) []byte {
			w := make([]byte, 32)
			if len(s.Data) > i*32 {
				copy(w, s.Data[i*32:])
			}
			return w
		}
		keys := []string{string(word(0))}
		if new(big.Int).SetBytes(word(2)).Cmp(big.NewInt(ModeTwo)) == 0 {
			keys = append(keys, string(word(3)))
		}
		v := bytes.TrimLeft(word(1), "\x00")
		for _, k := range keys {
			if len(v) == 0 {
				delete(st, k)
			} else {
				st[k] = v
			}
		}
	}
	return st
}

func hashes(l []*ledger.AccountBlock) string {
	var s []string
	for _, b := range l {
		if b == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, fmt.Sprintf("%s/%d", hx(b.Hash), b.Height))
	}
	return strings.Join(s, " ")
}

func sbs(l []*ledger.SnapshotBlock) string {
	var s []string
	for _, b := range l {
		if b == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, fmt.Sprintf("%s/%d", hx(b.Hash), b.Height))
	}
	return strings.Join(s, " ")
}

func down(l []*ledger.AccountBlock, to, count uint64) []*ledger.AccountBlock {
	var r []*ledger.AccountBlock
	for h := to; h >= 1 && uint64(len(r)) < count; h-- {
		r = append(r, l[h-1])
	}
	return r
}

// Seen remembers every hash that was ever part of a ledger, with what it was.
type Seen struct {
	AB map[types.Hash]*ledger.AccountBlock
	SB map[types.Hash]*ledger.SnapshotBlock
}

// See adds the blocks of the history.
func (s *Seen) See(h *Hist) {
	if s.AB == nil {
		s.AB, s.SB = map[types.Hash]*ledger.AccountBlock{}, map[types.Hash]*ledger.SnapshotBlock{}
	}
	for _, e := range h.Log {
		if e.SB != nil {
			s.SB[e.SB.Hash] = e.SB
			continue
		}
		s.AB[e.AB.Hash] = e.AB
		for _, x := range e.AB.SendBlockList {
			s.AB[x.Hash] = x
		}
	}
}

// CheckBlocks compares the queries about blocks with the model.
func (m *Model) CheckBlocks(h *Hist, seen *Seen) {
	c, ch := h.C, h.W.Chain
	eq := func(q string, got, want interface{}, err error) {
		if err != nil {
			c.Fail("query:"+strings.Fields(q)[0], "%s: %v", q, err)
		}
		if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
			c.Fail("query:"+strings.Fields(q)[0], "%s is %s, the history says %s", q, g, w)
		}
	}
	same := func(q string, got, want *ledger.AccountBlock, err error) {
		if err != nil {
			c.Fail("query:"+strings.Fields(q)[0], "%s: %v", q, err)
		}
		if g, w := BlockText(got), BlockText(want); g != w {
			c.Fail("query:"+strings.Fields(q)[0], "%s is %s, the history says %s", q, g, w)
		}
	}
	top := uint64(len(m.Sbs))
	latest := m.Sbs[top-1]
	// snapshot chain
	eq("GetLatestSnapshotBlock", SbText(ch.GetLatestSnapshotBlock()), SbText(latest), nil)
	for i := uint64(1); i <= top+1; i++ {
		var b *ledger.SnapshotBlock
		if i <= top {
			b = m.Sbs[i-1]
		}
		x, err := ch.GetSnapshotBlockByHeight(i)
		eq(fmt.Sprintf("GetSnapshotBlockByHeight %d", i), SbText(x), SbText(b), err)
		x, err = ch.GetSnapshotHeaderByHeight(i)
		eq(fmt.Sprintf("GetSnapshotHeaderByHeight %d", i), SbHead(x), SbHead(b), err)
		hh, err := ch.GetSnapshotHashByHeight(i)
		if b == nil {
			eq(fmt.Sprintf("GetSnapshotHashByHeight %d", i), hh == nil, true, err)
			continue
		}
		eq(fmt.Sprintf("GetSnapshotHashByHeight %d", i), hh, &b.Hash, err)
		x, err = ch.GetSnapshotBlockByHash(b.Hash)
		eq(fmt.Sprintf("GetSnapshotBlockByHash %d", i), SbText(x), SbText(b), err)
		x, err = ch.GetSnapshotHeaderByHash(b.Hash)
		eq(fmt.Sprintf("GetSnapshotHeaderByHash %d", i), SbHead(x), SbHead(b), err)
		n, err := ch.GetSnapshotHeightByHash(b.Hash)
		eq(fmt.Sprintf("GetSnapshotHeightByHash %d", i), n, i, err)
		ex, err := ch.IsSnapshotBlockExisted(b.Hash)
		eq(fmt.Sprintf("IsSnapshotBlockExisted %d", i), ex, true, err)
		eq(fmt.Sprintf("IsGenesisSnapshotBlock %d", i), ch.IsGenesisSnapshotBlock(b.Hash), i == 1, nil)
		for _, k := range []uint64{1, 2, 3, top + 2} {
			hi, lo := m.Sbs[i-1:], []*ledger.SnapshotBlock{}
			if uint64(len(hi)) > k {
				hi = hi[:k]
			}
			for j := i; j >= 1 && uint64(len(lo)) < k; j-- {
				lo = append(lo, m.Sbs[j-1])
			}
			for _, up := range []bool{true, false} {
				w := lo
				if up {
					w = hi
				}
				l, err := ch.GetSnapshotBlocks(b.Hash, up, k)
				eq(fmt.Sprintf("GetSnapshotBlocks %d %v %d", i, up, k), sbs(l), sbs(w), err)
				l, err = ch.GetSnapshotHeaders(b.Hash, up, k)
				eq(fmt.Sprintf("GetSnapshotHeaders %d %v %d", i, up, k), sbs(l), sbs(w), err)
				l, err = ch.GetSnapshotBlocksByHeight(i, up, k)
				eq(fmt.Sprintf("GetSnapshotBlocksByHeight %d %v %d", i, up, k), sbs(l), sbs(w), err)
				l, err = ch.GetSnapshotHeadersByHeight(i, up, k)
				eq(fmt.Sprintf("GetSnapshotHeadersByHeight %d %v %d", i, up, k), sbs(l), sbs(w), err)
			}
		}
		for j := i; j <= top; j++ {
			l, err := ch.GetRangeSnapshotBlocks(b.Hash, m.Sbs[j-1].Hash)
			eq(fmt.Sprintf("GetRangeSnapshotBlocks %d-%d", i, j), sbs(l), sbs(m.Sbs[i-1:j]), err)
			l, err = ch.GetRangeSnapshotHeaders(b.Hash, m.Sbs[j-1].Hash)
			eq(fmt.Sprintf("GetRangeSnapshotHeaders %d-%d", i, j), sbs(l), sbs(m.Sbs[i-1:j]), err)
			cs, err := ch.GetSubLedger(i, j)
			m.checkChunks(c, fmt.Sprintf("GetSubLedger %d-%d", i, j), cs, i, j, err)
		}
		cs, err := ch.GetSubLedgerAfterHeight(i)
		m.checkChunks(c, fmt.Sprintf("GetSubLedgerAfterHeight %d", i), cs, i, top, err)
	}
	// account chains
	addrs := map[types.Address]bool{}
	for a := range m.Chains {
		addrs[a] = true
	}
	for _, u := range Users {
		addrs[u.Addr] = true
	}
	for _, b := range seen.AB {
		addrs[b.AccountAddress] = true
		if b.IsSendBlock() {
			addrs[b.ToAddress] = true
		}
	}
	need := map[types.Address]string{}
	var un []string
	for a := range addrs {
		l := m.Chains[a]
		n := uint64(len(l))
		var last *ledger.AccountBlock
		if n > 0 {
			last = l[n-1]
		}
		x, err := ch.GetLatestAccountBlock(a)
		same(fmt.Sprintf("GetLatestAccountBlock %s", a), x, last, err)
		lh, err := ch.GetLatestAccountHeight(a)
		eq(fmt.Sprintf("GetLatestAccountHeight %s", a), lh, n, err)
		var wantUn []*ledger.AccountBlock
		for i := uint64(1); i <= n+1; i++ {
			var b *ledger.AccountBlock
			if i <= n {
				b = l[i-1]
			}
			x, err := ch.GetAccountBlockByHeight(a, i)
			same(fmt.Sprintf("GetAccountBlockByHeight %s/%d", a, i), x, b, err)
			hh, err := ch.GetAccountBlockHashByHeight(a, i)
			if b == nil {
				eq(fmt.Sprintf("GetAccountBlockHashByHeight %s/%d", a, i), hh == nil, true, err)
				continue
			}
			eq(fmt.Sprintf("GetAccountBlockHashByHeight %s/%d", a, i), hh, &b.Hash, err)
			if m.Conf[b.Hash] == 0 {
				wantUn = append(wantUn, b)
			}
			for _, k := range []uint64{0, 1, 2, n + 3} {
				w := hashes(down(l, i, k))
				g, err := ch.GetAccountBlocks(b.Hash, k)
				eq(fmt.Sprintf("GetAccountBlocks %s/%d %d", a, i, k), hashes(g), w, err)
				g, err = ch.GetAccountBlocksByHeight(a, i, k)
				eq(fmt.Sprintf("GetAccountBlocksByHeight %s/%d %d", a, i, k), hashes(g), w, err)
			}
			for j := i; j <= n; j++ {
				g, err := ch.GetAccountBlocksByRange(a, i, j)
				eq(fmt.Sprintf("GetAccountBlocksByRange %s/%d-%d", a, i, j), hashes(g), hashes(down(l, j, j-i+1)), err)
			}
		}
		eq(fmt.Sprintf("GetUnconfirmedBlocks %s", a), hashes(ch.GetUnconfirmedBlocks(a)), hashes(wantUn), nil)
		for _, b := range wantUn {
			un = append(un, hx(b.Hash))
		}
		if len(wantUn) > 0 {
			b := wantUn[len(wantUn)-1]
			need[a] = fmt.Sprintf("%s/%d", hx(b.Hash), b.Height)
		}
		// pending sends
		pend := m.Pending(a)
		set := func(l []types.Hash) string {
			var s []string
			for _, x := range l {
				s = append(s, hx(x))
			}
			sort.Strings(s)
			return strings.Join(s, " ")
		}
		var ph []types.Hash
		for _, b := range pend {
			ph = append(ph, b.Hash)
		}
		g, err := ch.GetOnRoadBlocksByAddr(a, 0, 100)
		var gh []types.Hash
		for _, b := range g {
			gh = append(gh, b.Hash)
			same(fmt.Sprintf("GetOnRoadBlocksByAddr %s", a), b, m.ByHash[b.Hash], nil)
		}
		eq(fmt.Sprintf("GetOnRoadBlocksByAddr %s", a), set(gh), set(ph), err)
		var paged []types.Hash
		for p := 0; p*2 <= len(gh); p++ {
			g, err := ch.GetOnRoadBlocksByAddr(a, p, 2)
			if err != nil {
				c.Fail("query:GetOnRoadBlocksByAddr", "%s: %v", a, err)
			}
			for _, b := range g {
				paged = append(paged, b.Hash)
			}
		}
		eq(fmt.Sprintf("GetOnRoadBlocksByAddr %s in pages", a), fmt.Sprint(paged), fmt.Sprint(gh), nil)
	}
	all, err := ch.LoadAllOnRoad()
	if err != nil {
		c.Fail("query:LoadAllOnRoad", "%v", err)
	}
	for a := range addrs {
		var w, g []string
		for _, b := range m.Pending(a) {
			w = append(w, hx(b.Hash))
		}
		for _, x := range all[a] {
			g = append(g, hx(x))
		}
		sort.Strings(w)
		sort.Strings(g)
		eq(fmt.Sprintf("LoadAllOnRoad %s", a), g, w, nil)
	}
	var gu []string
	pos := map[types.Hash]int{}
	for i, b := range ch.GetAllUnconfirmedBlocks() {
		gu = append(gu, hx(b.Hash))
		pos[b.Hash] = i
		// what a block builds on comes before it
		if p, ok := pos[b.PrevHash]; ok && p > i {
			c.Fail("query:order", "unconfirmed block %s comes before its predecessor", hx(b.Hash))
		}
	}
	for x, i := range pos {
		b := m.ByHash[x]
		if b == nil || !b.IsReceiveBlock() {
			continue
		}
		f := b.FromBlockHash
		if p := m.Parent[f]; p != nil {
			f = p.Hash
		}
		if j, ok := pos[f]; ok && j > i {
			c.Fail("query:order", "unconfirmed block %s comes before the send it receives", hx(x))
		}
	}
	sort.Strings(gu)
	sort.Strings(un)
	eq("GetAllUnconfirmedBlocks", gu, un, nil)
	gn := map[types.Address]string{}
	for a, hh := range ch.GetContentNeedSnapshot() {
		gn[a] = fmt.Sprintf("%s/%d", hx(hh.Hash), hh.Height)
	}
	eq("GetContentNeedSnapshot", gn, need, nil)
	gr, wr := map[types.Address]string{}, map[types.Address]string{}
	for a, r := range ch.GetContentNeedSnapshotRange() {
		gr[a] = fmt.Sprintf("%s/%d-%s/%d", hx(r.Start.Hash), r.Start.Height, hx(r.End.Hash), r.End.Height)
	}
	for a, l := range m.Chains {
		for i, b := range l {
			if m.Conf[b.Hash] == 0 {
				e := l[len(l)-1]
				wr[a] = fmt.Sprintf("%s/%d-%s/%d", hx(l[i].Hash), l[i].Height, hx(e.Hash), e.Height)
				break
			}
		}
	}
	eq("GetContentNeedSnapshotRange", gr, wr, nil)
	// single blocks, those that are gone included
	for x := range m.ByHash {
		m.checkOne(h, x, eq, same)
	}
	for x := range seen.AB {
		if m.ByHash[x] == nil {
			m.checkOne(h, x, eq, same)
		}
	}
	live := map[types.Hash]bool{}
	for _, b := range m.Sbs {
		live[b.Hash] = true
	}
	for x := range seen.SB {
		if live[x] {
			continue
		}
		ex, err := ch.IsSnapshotBlockExisted(x)
		eq("IsSnapshotBlockExisted of a removed block", ex, false, err)
		b, err := ch.GetSnapshotBlockByHash(x)
		eq("GetSnapshotBlockByHash of a removed block", b == nil, true, err)
		b, err = ch.GetSnapshotHeaderByHash(x)
		eq("GetSnapshotHeaderByHash of a removed block", b == nil, true, err)
		n, err := ch.GetSnapshotHeightByHash(x)
		eq("GetSnapshotHeightByHash of a removed block", n, 0, err)
	}
}

func (m *Model) checkOne(h *Hist, x types.Hash, eq func(string, interface{}, interface{}, error), same func(string, *ledger.AccountBlock, *ledger.AccountBlock, error)) {
	ch := h.W.Chain
	b := m.ByHash[x]
	q := hx(x)
	if b == nil {
		q = "of a removed block"
	}
	ex, err := ch.IsAccountBlockExisted(x)
	eq("IsAccountBlockExisted "+q, ex, b != nil, err)
	g, err := ch.GetAccountBlockByHash(x)
	same("GetAccountBlockByHash "+q, g, b, err)
	whole := b
	if p := m.Parent[x]; p != nil {
		whole = p
	}
	g, err = ch.GetCompleteBlockByHash(x)
	same("GetCompleteBlockByHash "+q, g, whole, err)
	conf := m.Conf[x]
	var sb *ledger.SnapshotBlock
	var times uint64
	if conf > 0 {
		sb = m.Sbs[conf-1]
		times = uint64(len(m.Sbs)) - conf + 1
	}
	s, err := ch.GetConfirmSnapshotHeaderByAbHash(x)
	eq("GetConfirmSnapshotHeaderByAbHash "+q, SbHead(s), SbHead(sb), err)
	s, err = ch.GetConfirmSnapshotBlockByAbHash(x)
	eq("GetConfirmSnapshotBlockByAbHash "+q, SbText(s), SbText(sb), err)
	n, err := ch.GetConfirmedTimes(x)
	eq("GetConfirmedTimes "+q, n, times, err)
	if b == nil || b.IsSendBlock() {
		r := m.Recv[x]
		got, err := ch.IsReceived(x)
		eq("IsReceived "+q, got, r != nil, err)
		rb, err := ch.GetReceiveAbBySendAb(x)
		same("GetReceiveAbBySendAb "+q, rb, r, err)
	}
}

// checkChunks: the snapshot blocks from..to, each with the blocks it confirms (the first without).
func (m *Model) checkChunks(c *C, q string, cs []*ledger.SnapshotChunk, from, to uint64, err error) {
	key := "query:" + strings.Fields(q)[0]
	if err != nil {
		c.Fail(key, "%s: %v", q, err)
	}
	next := from
	for i, k := range cs {
		if k.SnapshotBlock == nil {
			c.Fail(key, "%s: chunk %d has no snapshot block", q, i)
		}
		if next > to || SbText(k.SnapshotBlock) != SbText(m.Sbs[next-1]) {
			c.Fail(key, "%s: chunk %d has snapshot block %s", q, i, SbText(k.SnapshotBlock))
		}
		want := map[types.Hash]bool{}
		if i > 0 {
			for _, b := range m.Order {
				if m.Conf[b.Hash] == next {
					want[b.Hash] = true
				}
			}
		}
		prev := map[types.Address]uint64{}
		for _, b := range k.AccountBlocks {
			if !want[b.Hash] {
				c.Fail(key, "%s: chunk %d has block %s, which it does not confirm or repeats", q, i, hx(b.Hash))
			}
			if BlockText(b) != BlockText(m.ByHash[b.Hash]) {
				c.Fail(key, "%s: chunk %d has block %s", q, i, BlockText(b))
			}
			delete(want, b.Hash)
			if prev[b.AccountAddress] > b.Height {
				c.Fail(key, "%s: chunk %d has the blocks of %s out of order", q, i, b.AccountAddress)
			}
			prev[b.AccountAddress] = b.Height
		}
		if len(want) > 0 {
			c.Fail(key, "%s: chunk %d lacks %d blocks", q, i, len(want))
		}
		next++
	}
	if next != to+1 {
		c.Fail(key, "%s ends at %d", q, next-1)
	}
}

// value is a number, nil counting as zero
func value(n *big.Int) string {
	if n == nil {
		return "0"
	}
	return n.String()
}

// CheckState compares balances, storage, code and logs, now and at every snapshot block, with the model.
// scripts are the scripted contracts the history may call.
func (m *Model) CheckState(h *Hist, scripts []types.Address) {
	c, ch := h.C, h.W.Chain
	_, _, sdb := ch.DBs()
	eq := func(q string, got, want interface{}, err error) {
		if err != nil {
			c.Fail("state:"+strings.Fields(q)[0], "%s: %v", q, err)
		}
		if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
			c.Fail("state:"+strings.Fields(q)[0], "%s is %s, the history says %s", q, g, w)
		}
	}
	var addrs []types.Address
	for _, u := range Users {
		addrs = append(addrs, u.Addr)
	}
	for _, u := range ContractOwners {
		addrs = append(addrs, u.Addr)
	}
	addrs = append(addrs, scripts...)
	other := types.CreateTokenTypeId([]byte("no such token"))
	for _, a := range addrs {
		n, err := ch.GetBalance(a, ledger.ViteTokenId)
		eq(fmt.Sprintf("GetBalance %s", a), value(n), m.Balance(a, ledger.ViteTokenId, All), err)
		n, err = ch.GetBalance(a, other)
		eq(fmt.Sprintf("GetBalance %s of no token", a), value(n), 0, err)
		bm, err := ch.GetBalanceMap(a)
		eq(fmt.Sprintf("GetBalanceMap %s", a), value(bm[ledger.ViteTokenId]), m.Balance(a, ledger.ViteTokenId, All), err)
		for t, n := range bm {
			if t != ledger.ViteTokenId && n.Sign() != 0 {
				c.Fail("state:GetBalanceMap", "%s has %v of %s", a, n, t)
			}
		}
	}
	for i, sb := range m.Sbs {
		hgt := uint64(i + 1)
		bl, err := ch.GetConfirmedBalanceList(addrs, ledger.ViteTokenId, sb.Hash)
		for _, a := range addrs {
			eq(fmt.Sprintf("GetConfirmedBalanceList at %d of %s", hgt, a), value(bl[a]), m.Balance(a, ledger.ViteTokenId, m.ConfirmedAt(hgt)), err)
		}
		for _, a := range scripts {
			keep := m.ConfirmedAt(hgt)
			st := m.Storage(a, keep)
			it, err := sdb.NewSnapshotStorageIteratorByHeight(hgt, a, nil)
			if err != nil {
				c.Fail("state:history", "iterator of %s at %d: %v", a, hgt, err)
			}
			f, bw, err := iterText(it)
			eq(fmt.Sprintf("history iterator of %s at %d", a, hgt), storeText(f), modelStore(st), err)
			for x, y := 0, len(bw)-1; x < y; x, y = x+1, y-1 {
				bw[x], bw[y] = bw[y], bw[x]
			}
			eq(fmt.Sprintf("history backward iterator of %s at %d", a, hgt), storeText(bw), modelStore(st), nil)
			for k := int64(0); k < 4; k++ {
				v, err := sdb.GetSnapshotValue(hgt, a, Word(k))
				eq(fmt.Sprintf("history value %d of %s at %d", k, a, hgt), fmt.Sprintf("%x", v), fmt.Sprintf("%x", st[string(Word(k))]), err)
			}
			mt, err := ch.GetContractMetaInSnapshot(a, hgt)
			eq(fmt.Sprintf("history meta of %s at %d", a, hgt), mt != nil, m.created(a, keep), err)
		}
	}
	for _, a := range scripts {
		st := m.Storage(a, All)
		it, err := ch.GetStorageIterator(a, nil)
		if err != nil {
			c.Fail("state:iterator", "%s: %v", a, err)
		}
		f, _, err := iterText(it)
		eq(fmt.Sprintf("iterator %s", a), strings.Join(f, ";"), modelStore(st), err)
		for k := int64(0); k < 4; k++ {
			v, err := ch.GetValue(a, Word(k))
			eq(fmt.Sprintf("GetValue %s %d", a, k), fmt.Sprintf("%x", v), fmt.Sprintf("%x", st[string(Word(k))]), err)
		}
		d := m.deployed(a, All)
		mt, err := ch.GetContractMeta(a)
		eq(fmt.Sprintf("GetContractMeta %s", a), mt != nil, m.created(a, All), err)
		code, err := ch.GetContractCode(a)
		if d != nil && d.Data[32] == 0 {
			eq(fmt.Sprintf("GetContractCode %s", a), fmt.Sprintf("%x", code), fmt.Sprintf("%x", append([]byte{1}, ScriptCode()...)), err)
		} else {
			eq(fmt.Sprintf("GetContractCode %s", a), len(code), 0, err)
		}
	}
	// logs and call depth
	for _, b := range m.Order {
		if b.LogHash != nil && b.FromBlockHash != (types.Hash{}) {
			l, err := ch.GetVmLogList(b.LogHash)
			s := m.ByHash[b.FromBlockHash]
			if err != nil || len(l) != 1 || len(l[0].Topics) != 1 || len(s.Data) < 64 || !bytes.Equal(l[0].Topics[0][:], s.Data[:32]) || !bytes.Equal(l[0].Data, s.Data[32:64]) {
				c.Fail("state:logs", "the log of %s is %s (%v)", hx(b.Hash), logText(l), err)
			}
		}
		for _, s := range b.SendBlockList {
			n, err := ch.GetCallDepth(s.Hash)
			eq(fmt.Sprintf("GetCallDepth %s", hx(s.Hash)), n, m.depth(s.Hash), err)
		}
	}
	// the contracts there are
	l, err := ch.GetContractList(types.DELEGATE_GID)
	have := map[types.Address]bool{}
	for _, a := range l {
		have[a] = true
	}
	for _, a := range scripts {
		eq(fmt.Sprintf("GetContractList %s", a), have[a], m.created(a, All), err)
	}
}

// depth of nested calls that led to a send
func (m *Model) depth(h types.Hash) uint16 {
	p := m.Parent[h]
	if p == nil {
		return 0
	}
	return m.depth(p.FromBlockHash) + 1
}

// created tells whether the creation of contract a was sent.
func (m *Model) created(a types.Address, keep func(b *ledger.AccountBlock) bool) bool {
	for _, b := range m.Order {
		if b.BlockType == ledger.BlockTypeSendCreate && b.ToAddress == a && keep(b) {
			return true
		}
	}
	return false
}

// deployed is the block that created contract a.
func (m *Model) deployed(a types.Address, keep func(b *ledger.AccountBlock) bool) *ledger.AccountBlock {
	for _, b := range m.Chains[a] {
		if s := m.ByHash[b.FromBlockHash]; keep(b) && s != nil && s.BlockType == ledger.BlockTypeSendCreate {
			return b
		}
	}
	return nil
}

func storeText(l []string) string {
	var r []string
	for _, x := range l {
		if x == "" || strings.HasSuffix(x, "=") { // the history keeps deleted keys, with no value
			continue
		}
		r = append(r, x)
	}
	return strings.Join(r, ";")
}

func modelStore(m map[string][]byte) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		r = append(r, fmt.Sprintf("%x=%x", k, m[k]))
	}
	return strings.Join(r, ";")
}

// CheckValue checks that nothing is created, lost or spent twice.
func (m *Model) CheckValue(h *Hist, extra ...types.Address) {
	c, ch := h.C, h.W.Chain
	sum, total, fees := new(big.Int), new(big.Int), new(big.Int)
	addrs := map[types.Address]bool{}
	for a, l := range m.Gen {
		addrs[a] = true
		if n := l[ledger.ViteTokenId]; n != nil {
			total.Add(total, n)
		}
	}
	for _, a := range extra {
		addrs[a] = true
	}
	recv := map[types.Hash]int{}
	for _, b := range m.Order {
		addrs[b.AccountAddress] = true
		if b.IsReceiveBlock() {
			recv[b.FromBlockHash]++
			if recv[b.FromBlockHash] > 1 && b.FromBlockHash != (types.Hash{}) {
				c.Fail("value:twice", "send %s is received twice", hx(b.FromBlockHash))
			}
			// a failed execution gives the fee back
			if s := m.ByHash[b.FromBlockHash]; s != nil && s.Fee != nil && s.Fee.Sign() > 0 && !(len(b.Data) == 33 && b.Data[32] == 1) {
				fees.Add(fees, s.Fee)
			}
		}
		for _, s := range append([]*ledger.AccountBlock{b}, b.SendBlockList...) {
			if s.IsSendBlock() {
				addrs[s.ToAddress] = true
				if s.Amount != nil && s.Amount.Sign() < 0 {
					c.Fail("value:negative", "send %s of %v", hx(s.Hash), s.Amount)
				}
			}
		}
	}
	for a := range addrs {
		n, err := ch.GetBalance(a, ledger.ViteTokenId)
		if err != nil {
			c.Fail("value:balance", "%s: %v", a, err)
		}
		if n != nil {
			if n.Sign() < 0 {
				c.Fail("value:negative", "%s has %v", a, n)
			}
			sum.Add(sum, n)
		}
		// what the ledger itself offers to be received
		l, err := ch.GetOnRoadBlocksByAddr(a, 0, 1000)
		if err != nil {
			c.Fail("value:onroad", "%s: %v", a, err)
		}
		for _, s := range l {
			if s.TokenId == ledger.ViteTokenId && s.Amount != nil {
				sum.Add(sum, s.Amount)
			}
			if s.Fee != nil {
				sum.Add(sum, s.Fee) // burnt, or given back, when received
			}
		}
	}
	sum.Add(sum, fees)
	if sum.Cmp(total) != 0 {
		c.Fail("value:sum", "balances, pending sends and burnt fees are %v, there were %v", sum, total)
	}
}
