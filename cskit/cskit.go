// Package cskit runs the real consensus package over an in-memory snapshot chain that can be extended, rolled
// back and forked, and holds an independent computation of the producer schedule and of the production statistics.
package cskit

import (
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/log15"
)

var boxOnce sync.Once

// Genesis is a fixed instant.
var Genesis = time.Unix(1600000000, 0)

// Key returns a producer's public key.
func Key(i int) []byte {
	k := make([]byte, 32)
	k[0], k[31] = byte(i+1), 7
	return k
}

// Addr returns a producer's address.
func Addr(i int) types.Address { return types.PubkeyToAddress(Key(i)) }

// State is what the ledger says about registrations, votes and balances at a snapshot block.
type State struct {
	Id    int
	Regs  []*types.Registration
	Gone  []*types.Registration // cancelled registrations
	Votes []*types.VoteInfo
	Bal   map[types.Address]*big.Int
}

var stateCount int

// Voter returns a voter's address.
func Voter(i int) types.Address {
	a := types.Address{}
	a[0], a[1] = byte(i), 0x55
	return a
}

// NewState gives one producer per entry, each with the given votes held by two voters.
func NewState(names []string, addrs []types.Address, votes []int64) *State {
	stateCount++
	s := &State{Id: stateCount, Bal: map[types.Address]*big.Int{}}
	for i := range names {
		s.Regs = append(s.Regs, &types.Registration{Name: names[i], BlockProducingAddress: addrs[i], HisAddrList: []types.Address{addrs[i]}})
		for j, v := range []int64{votes[i] / 2, votes[i] - votes[i]/2} {
			if votes[i] > 0 {
				w := Voter(2*i + j)
				s.Votes = append(s.Votes, &types.VoteInfo{VoteAddr: w, SbpName: names[i]})
				s.Bal[w] = big.NewInt(v)
			}
		}
	}
	return s
}

// Tally is the ranking: highest total first, then by name.
func (s *State) Tally() []Cand {
	var l []Cand
	for _, r := range s.Regs {
		t := new(big.Int)
		for _, v := range s.Votes {
			if v.SbpName == r.Name {
				t.Add(t, s.Bal[v.VoteAddr])
			}
		}
		l = append(l, Cand{r.Name, r.BlockProducingAddress, t})
	}
	Rank(l)
	return l
}

// Cand is a candidate.
type Cand struct {
	Name  string
	Addr  types.Address
	Votes *big.Int
}

// Rank sorts candidates.
func Rank(l []Cand) {
	sort.SliceStable(l, func(i, j int) bool {
		if d := l[i].Votes.Cmp(l[j].Votes); d != 0 {
			return d > 0
		}
		return l[i].Name < l[j].Name
	})
}

// Rules are the parameters of a consensus group.
type Rules struct {
	Nodes, RandCount, RandRank int
	Gid                        types.Gid
}

// Select is the election: candidates, rates of success, seed and height of the deciding block.
func (r Rules) Select(cands []Cand, rates map[types.Address]int32, seed, height uint64) []types.Address {
	l := append([]Cand(nil), cands...)
	Rank(l)
	var out []Cand
	if len(l) <= r.Nodes {
		out = l
	} else {
		top, rest := append([]Cand(nil), l[:r.Nodes]...), append([]Cand(nil), l[r.Nodes:]...)
		if len(l) > r.RandRank {
			rest = rest[:r.RandRank-r.Nodes]
		}
		if len(rates) >= 2 {
			exchange(top, rest, rates)
		}
		Rank(top)
		Rank(rest)
		out = r.draw(top, rest, seed, height)
		Rank(out)
	}
	var res []types.Address
	for _, i := range rand.New(rand.NewSource(r.seed(out, seed, height))).Perm(len(out)) {
		res = append(res, out[i].Addr)
	}
	return res
}

func (r Rules) seed(l []Cand, seed, height uint64) int64 {
	s := new(big.Int).SetUint64(height)
	s.Add(s, new(big.Int).SetBytes(r.Gid.Bytes()))
	if seed == 0 {
		for _, c := range l {
			s.Add(s, c.Votes)
		}
	} else {
		s.Add(s, new(big.Int).SetUint64(seed))
	}
	return int64(new(big.Int).And(s, new(big.Int).SetUint64(^uint64(0))).Uint64())
}

func (r Rules) draw(top, rest []Cand, seed, height uint64) (out []Cand) {
	all := append(append([]Cand(nil), top...), rest...)
	sd := r.seed(all, seed, height)
	n := r.Nodes / 3
	if n > r.RandCount {
		n = r.RandCount
	}
	keep := r.Nodes - n
	if keep*len(rest) > n*r.Nodes {
		for _, i := range rand.New(rand.NewSource(sd)).Perm(len(top))[:keep] {
			out = append(out, top[i])
		}
		for _, i := range rand.New(rand.NewSource(sd + 1)).Perm(len(rest))[:n] {
			out = append(out, rest[i])
		}
		return
	}
	for _, i := range rand.New(rand.NewSource(sd)).Perm(len(all))[:r.Nodes] {
		out = append(out, all[i])
	}
	return
}

// exchange swaps at most two of the top that produced too little for at most two others that produced well.
func exchange(top, rest []Cand, rates map[types.Address]int32) {
	rate := func(c Cand) int32 {
		if v, ok := rates[c.Addr]; ok {
			return v
		}
		return -1
	}
	by := func(l []Cand) {
		sort.SliceStable(l, func(i, j int) bool {
			if a, b := rate(l[i]), rate(l[j]); a != b {
				return a > b
			}
			if d := l[i].Votes.Cmp(l[j].Votes); d != 0 {
				return d > 0
			}
			return l[i].Name < l[j].Name
		})
	}
	by(top)
	by(rest)
	var weak, strong []int
	for i := len(top) - 1; i >= len(top)-2; i-- { // the weakest first
		if v := rate(top[i]); v >= 0 && v < 800000 {
			weak = append(weak, i)
		}
	}
	for i := range rest {
		if len(strong) < 2 && rate(rest[i]) > 800000 {
			strong = append(strong, i)
		}
	}
	for k := 0; k < len(weak) && k < len(strong); k++ {
		top[weak[k]], rest[strong[k]] = rest[strong[k]], top[weak[k]]
	}
}

// Chain is the in-memory snapshot chain.
type Chain struct {
	mu       sync.Mutex
	Blocks   []*ledger.SnapshotBlock
	States   []*State // by position
	Known    map[types.Hash]int
	Info     []*types.ConsensusGroupInfo
	Contract map[types.Address]types.Gid
	store    storage.Storage
	Special  *ledger.SnapshotBlock
}

// Group is the default consensus group: 3 nodes, slots of 20 seconds, periods of a minute.
func Group(gid types.Gid) *types.ConsensusGroupInfo {
	return &types.ConsensusGroupInfo{Gid: gid, NodeCount: 3, Interval: 20, PerCount: 1, RandCount: 1, RandRank: 5, Repeat: 1, CheckLevel: 0, CountingTokenId: ledger.ViteTokenId}
}

// NewChain has only the genesis block.
func NewChain(s *State, groups ...*types.ConsensusGroupInfo) *Chain {
	boxOnce.Do(func() {
		log15.Root().SetHandler(log15.DiscardHandler())
		upgrade.CleanupUpgradeBox()
		upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
	})
	t := Genesis
	g := &ledger.SnapshotBlock{Height: 1, Timestamp: &t, PublicKey: Key(99)}
	g.Hash = g.ComputeHash()
	return &Chain{Blocks: []*ledger.SnapshotBlock{g}, States: []*State{s}, Known: map[types.Hash]int{g.Hash: 0}, Info: groups, Contract: map[types.Address]types.Gid{}, store: storage.NewMemStorage()}
}

// Last is the latest block.
func (c *Chain) Last() *ledger.SnapshotBlock { return c.Blocks[len(c.Blocks)-1] }

// LastState is the state at the latest block.
func (c *Chain) LastState() *State { return c.States[len(c.States)-1] }

// Add appends a block.
func (c *Chain) Add(at time.Time, producer int, seed uint64, s *State) *ledger.SnapshotBlock {
	return c.AddKey(at, Key(producer), seed, s)
}

// AddKey appends a block by a key.
func (c *Chain) AddKey(at time.Time, key []byte, seed uint64, s *State) *ledger.SnapshotBlock {
	l := c.Last()
	b := &ledger.SnapshotBlock{PrevHash: l.Hash, Height: l.Height + 1, Timestamp: &at, PublicKey: key, Seed: seed}
	if s == nil {
		s = c.LastState()
	}
	// the block commits to its state, as a real one does through its content
	sh, _ := types.BytesToHash([]byte(fmt.Sprintf("%032d", s.Id)))
	b.SeedHash = &sh
	b.Hash = b.ComputeHash()
	c.Blocks = append(c.Blocks, b)
	c.States = append(c.States, s)
	c.Known[b.Hash] = len(c.Blocks) - 1
	return b
}

// Back removes the latest n blocks.
func (c *Chain) Back(n int) {
	for i := 0; i < n; i++ {
		delete(c.Known, c.Last().Hash)
		c.Blocks = c.Blocks[:len(c.Blocks)-1]
		c.States = c.States[:len(c.States)-1]
	}
}

// nolock ends the background goroutines of the module that ask for the lock.
type nolock struct{}

func (nolock) Lock()            {}
func (nolock) LockInsert()      {}
func (nolock) UnLockInsert()    {}
func (nolock) LockRollback()    {}
func (nolock) UnLockRollback()  {}
func (nolock) RLockInsert()     {}
func (nolock) RUnLockInsert()   {}
func (nolock) RLockRollback()   { goexit() }
func (nolock) RUnLockRollback() {}

// Node is a running consensus module with its database.
type Node struct {
	C  *Chain
	CS consensus.Consensus
	db *leveldb.DB
	st storage.Storage

	Mu    sync.Mutex
	Asked map[types.Hash]bool // blocks whose seed the module asked for
}

// Start opens a node over the chain; with old, the database of that (stopped) node is used.
func Start(c *Chain, old *Node) *Node {
	n := &Node{C: c, st: storage.NewMemStorage(), Asked: map[types.Hash]bool{}}
	if old != nil {
		n.st = old.st
	}
	n.CS = consensus.NewConsensus(&view{c, n}, nolock{})
	if err := n.CS.Init(nil); err != nil {
		panic(err)
	}
	return n
}

// Stop closes the database.
func (n *Node) Stop() { n.db.Close() }

type view struct {
	*Chain
	n *Node
}

// GetRandomSeed notes the question.
func (v *view) GetRandomSeed(h types.Hash, n int) uint64 {
	v.n.Mu.Lock()
	v.n.Asked[h] = true
	v.n.Mu.Unlock()
	return v.Chain.GetRandomSeed(h, n)
}

func (v *view) NewDb(string) (*leveldb.DB, error) {
	db, err := leveldb.Open(v.n.st, &opt.Options{WriteBuffer: 1 << 16})
	v.n.db = db
	return db, err
}

// the chain interface
func (c *Chain) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return c.Blocks[0] }
func (c *Chain) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return c.Last() }
func (c *Chain) Register(interfaces.EventListener)              {}
func (c *Chain) UnRegister(interfaces.EventListener)            {}
func (c *Chain) GetConsensusGroupList(h types.Hash) ([]*types.ConsensusGroupInfo, error) {
	return c.Info, nil
}
func (c *Chain) at(h types.Hash) (*State, error) {
	if i, ok := c.Known[h]; ok {
		return c.States[i], nil
	}
	return nil, fmt.Errorf("no snapshot block %s", h)
}
func (c *Chain) GetRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	s, err := c.at(h)
	if err != nil {
		return nil, err
	}
	return append([]*types.Registration(nil), s.Regs...), nil
}
func (c *Chain) GetAllRegisterList(h types.Hash, gid types.Gid) ([]*types.Registration, error) {
	s, err := c.at(h)
	if err != nil {
		return nil, err
	}
	return append(append([]*types.Registration(nil), s.Regs...), s.Gone...), nil
}
func (c *Chain) GetVoteList(h types.Hash, gid types.Gid) ([]*types.VoteInfo, error) {
	s, err := c.at(h)
	if err != nil {
		return nil, err
	}
	return append([]*types.VoteInfo(nil), s.Votes...), nil
}
func (c *Chain) GetConfirmedBalanceList(l []types.Address, t types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	s, err := c.at(h)
	if err != nil {
		return nil, err
	}
	if t != ledger.ViteTokenId {
		return nil, fmt.Errorf("wrong counting token")
	}
	m := map[types.Address]*big.Int{}
	for _, a := range l {
		m[a] = new(big.Int).Set(s.Bal[a])
	}
	return m, nil
}
func (c *Chain) GetSnapshotHeaderBeforeTime(t *time.Time) (*ledger.SnapshotBlock, error) {
	return c.Before(*t), nil
}

// Before is the last block earlier than t.
func (c *Chain) Before(t time.Time) *ledger.SnapshotBlock {
	i := sort.Search(len(c.Blocks), func(i int) bool { return !c.Blocks[i].Timestamp.Before(t) })
	if i == 0 {
		return nil
	}
	return c.Blocks[i-1]
}
func (c *Chain) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	return &ledger.ContractMeta{Gid: c.Contract[a]}, nil
}
func (c *Chain) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if c.Special != nil && h == c.Special.Height {
		return c.Special, nil
	}
	if h == 0 || h > uint64(len(c.Blocks)) {
		return nil, nil
	}
	return c.Blocks[h-1], nil
}
func (c *Chain) GetSnapshotBlockByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	if i, ok := c.Known[h]; ok {
		return c.Blocks[i], nil
	}
	return nil, nil
}
func (c *Chain) GetSnapshotHeadersAfterOrEqualTime(end *ledger.HashHeight, start *time.Time, producer *types.Address) ([]*ledger.SnapshotBlock, error) {
	b := c.Before(*start)
	if b == nil {
		b = c.Blocks[0]
	}
	var l []*ledger.SnapshotBlock
	for h := end.Height; h > b.Height; h-- {
		x := c.Blocks[h-1]
		if producer == nil || x.Producer() == *producer {
			l = append(l, x)
		}
	}
	return l, nil
}
func (c *Chain) IsGenesisSnapshotBlock(h types.Hash) bool { return c.Blocks[0].Hash == h }
func (c *Chain) GetRandomSeed(h types.Hash, n int) uint64 {
	return c.seed(h, n)
}
func (c *Chain) seed(h types.Hash, n int) (s uint64) {
	i, ok := c.Known[h]
	if !ok {
		return 0
	}
	seen := map[types.Address]bool{}
	for ; i >= 0 && len(seen) < n; i-- {
		b := c.Blocks[i]
		if b.Seed > 0 && !seen[b.Producer()] {
			seen[b.Producer()] = true
			s += b.Seed
		}
	}
	return
}
func (c *Chain) GetLastUnpublishedSeedSnapshotHeader(types.Address, time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}

// Slot is one turn of the schedule.
type Slot struct {
	Start time.Time
	Addr  types.Address
}

// Model computes schedules and statistics from the chain alone.
type Model struct {
	C    *Chain
	G    *types.ConsensusGroupInfo
	memo map[uint64][]types.Address
	stat map[uint64]map[types.Address]*[2]uint32
}

// NewModel is for one state of the chain.
func NewModel(c *Chain, g *types.ConsensusGroupInfo) *Model {
	return &Model{c, g, map[uint64][]types.Address{}, map[uint64]map[types.Address]*[2]uint32{}}
}

// Len is the length of a period.
func (m *Model) Len() time.Duration {
	return time.Duration(m.G.Interval*int64(m.G.NodeCount)*m.G.PerCount*int64(m.G.Repeat)) * time.Second
}

// Index is the period of an instant.
func (m *Model) Index(t time.Time) uint64 { return uint64(t.Sub(Genesis) / m.Len()) }

// Time is the start of a period.
func (m *Model) Time(i uint64) time.Time { return Genesis.Add(time.Duration(i) * m.Len()) }

// Proof is the block that decides a period of the snapshot group (or of a contract group).
func (m *Model) Proof(i uint64) *ledger.SnapshotBlock {
	if m.G.Gid == types.SNAPSHOT_GID {
		if i < 2 {
			return m.C.Before(Genesis.Add(time.Second))
		}
		return m.C.Before(m.Time(i - 1))
	}
	t := m.Time(i).Add(-75 * time.Second)
	if t.Before(Genesis) {
		t = Genesis.Add(time.Second)
	}
	return m.C.Before(t)
}

// Elected lists the producers of a period.
func (m *Model) Elected(i uint64) []types.Address {
	if l, ok := m.memo[i]; ok {
		return l
	}
	p := m.Proof(i)
	if p == nil {
		return nil
	}
	var rates map[types.Address]int32
	if m.G.Gid == types.SNAPSHOT_GID {
		if q := m.Index(*p.Timestamp); q > 2 {
			rates = m.Rates(q - 2)
		}
	}
	s, _ := m.C.at(p.Hash)
	l := Rules{int(m.G.NodeCount), int(m.G.RandCount), int(m.G.RandRank), m.G.Gid}.Select(s.Tally(), rates, m.C.seed(p.Hash, 25), p.Height)
	m.memo[i] = l
	return l
}

// Plan is the schedule of a period.
func (m *Model) Plan(i uint64) (l []Slot) {
	e := m.Elected(i)
	slot := time.Duration(m.G.Interval) * time.Second
	for r := 0; r < int(m.G.Repeat); r++ {
		for k, a := range e {
			for j := int64(0); j < m.G.PerCount; j++ {
				n := (int64(r)*int64(m.G.NodeCount)+int64(k))*m.G.PerCount + j
				l = append(l, Slot{m.Time(i).Add(slot * time.Duration(n)), a})
			}
		}
	}
	return
}

// Stat is the number of blocks due and made by each producer in a period; nil if nobody produced.
func (m *Model) Stat(i uint64) map[types.Address]*[2]uint32 {
	if s, ok := m.stat[i]; ok {
		return s
	}
	var s map[types.Address]*[2]uint32
	from, to := m.Time(i), m.Time(i+1)
	for _, b := range m.C.Blocks[1:] {
		if !b.Timestamp.Before(from) && b.Timestamp.Before(to) {
			if s == nil {
				s = map[types.Address]*[2]uint32{}
			}
			inc(s, b.Producer())[1]++
		}
	}
	if s != nil {
		for _, p := range m.Plan(i) {
			inc(s, p.Addr)[0]++
		}
	}
	m.stat[i] = s
	return s
}

func inc(s map[types.Address]*[2]uint32, a types.Address) *[2]uint32 {
	if s[a] == nil {
		s[a] = &[2]uint32{}
	}
	return s[a]
}

// Sum adds the statistics of the periods [from, to).
func (m *Model) Sum(from, to uint64) (s map[types.Address]*[2]uint32) {
	last := m.Index(*m.C.Last().Timestamp)
	for i := from; i < to && i <= last; i++ {
		for a, v := range m.Stat(i) {
			if s == nil {
				s = map[types.Address]*[2]uint32{}
			}
			x := inc(s, a)
			x[0] += v[0]
			x[1] += v[1]
		}
	}
	return
}

// Rates of success over the 48 periods up to i, in millionths.
func (m *Model) Rates(i uint64) map[types.Address]int32 {
	from := uint64(0)
	if i >= 47 {
		from = i - 47
	}
	r := map[types.Address]int32{}
	for a, v := range m.Sum(from, i+1) {
		r[a] = -1
		if v[0] > 0 {
			r[a] = int32(uint64(v[1]) * 1000000 / uint64(v[0]))
		}
	}
	return r
}

func goexit() { runtime.Goexit() }
