// Property L07: the ledger accepts exactly the valid next snapshot blocks, and they confirm what they list.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
	. "github.com/vitelabs/go-vite/v2/zz_verif/kit"
)

// The schedule: two producers take turns of three seconds; nobody is scheduled in every fourth turn,
// and the schedule of every fifth turn is not known.
func scheduled(sec int64) (*types.Address, error) {
	t := sec / 3
	if t%5 == 3 {
		return nil, errors.New("no schedule")
	}
	if t%4 == 3 {
		return nil, nil
	}
	if t%2 == 0 {
		return &Producer.Addr, nil
	}
	return &Users[3].Addr, nil
}

type css struct{ CssVerifier }

func (css) VerifySnapshotProducer(b *ledger.SnapshotBlock) (bool, error) {
	p, err := scheduled(b.Timestamp.Unix())
	if err != nil {
		return false, err
	}
	return p != nil && *p == types.PubkeyToAddress(b.PublicKey), nil
}


type item struct {
	name string
	hh   *ledger.HashHeight
	kind int // absent, unconfirmed, confirmed, missing, wrong
}

const (
	absent = iota
	unconfirmed
	confirmed
	missing
	wrong
)

type acc struct {
	name  string
	addr  types.Address
	items []item
}

type state struct {
	w    *World
	dir  string
	head *ledger.SnapshotBlock
	accs []*acc
	time time.Time // an honest next time
}

var cached *state

func must(c *C, err error) {
	if err != nil {
		c.Fail("L07/setup", "an honest block is refused: %v", err)
	}
}

func get(c *C) *state {
	if cached != nil {
		return cached
	}
	dir := MkTemp("l07")
	w, err := Open(Options{Dir: dir})
	must(c, err)
	vite := ledger.ViteTokenId
	send := func(from int, to types.Address, n int64, data []byte) *ledger.AccountBlock {
		b, err := w.Send(Users[from], to, vite, big.NewInt(n), data)
		must(c, err)
		return b
	}
	_, err = w.Deploy(0)
	must(c, err)
	k := ContractAddr(0)
	a := send(0, Users[1].Addr, 5, nil)
	send(2, Users[0].Addr, 6, nil)
	send(2, Users[0].Addr, 7, nil)
	_, err = w.Snapshot()
	must(c, err)
	call := send(0, k, 1, ScriptData(1, 8, ModeForward, Users[2].Addr))
	_, err = w.Receive(a, Users[1])
	must(c, err)
	_, err = w.Receive(call, Producer)
	must(c, err)
	send(0, Users[2].Addr, 3, nil)
	send(1, Users[2].Addr, 4, nil)
	send(0, Users[1].Addr, 2, nil)
	s := &state{w: w, dir: dir, head: w.Chain.GetLatestSnapshotBlock()}
	stranger := NewAcct(0x77).Addr
	for i, x := range []types.Address{Users[0].Addr, Users[1].Addr, k, Users[2].Addr, stranger} {
		y := &acc{name: []string{"u0", "u1", "contract", "u2", "stranger"}[i], addr: x}
		y.items = append(y.items, item{name: "-", kind: absent})
		latest, err := w.Chain.GetLatestAccountBlock(x)
		must(c, err)
		var n uint64
		if latest != nil {
			n = latest.Height
		}
		for h := uint64(1); h <= n; h++ {
			b, err := w.Chain.GetAccountBlockByHeight(x, h)
			must(c, err)
			sb, err := w.Chain.GetConfirmSnapshotHeaderByAbHash(b.Hash)
			must(c, err)
			if sb == nil {
				y.items = append(y.items, item{fmt.Sprintf("%d", h), &ledger.HashHeight{Height: h, Hash: b.Hash}, unconfirmed})
			} else if h == 1 || h == n || h == 2 {
				y.items = append(y.items, item{fmt.Sprintf("%d", h), &ledger.HashHeight{Height: h, Hash: b.Hash}, confirmed})
			}
			if h == n {
				z := b.Hash
				z[31] ^= 1
				y.items = append(y.items, item{fmt.Sprintf("%d changed", h), &ledger.HashHeight{Height: h, Hash: z}, wrong})
				y.items = append(y.items, item{fmt.Sprintf("%d beyond", h+1), &ledger.HashHeight{Height: h + 1, Hash: b.Hash}, missing})
				y.items = append(y.items, item{"height 0", &ledger.HashHeight{Height: 0, Hash: b.Hash}, missing})
				if n > 1 {
					y.items = append(y.items, item{fmt.Sprintf("%d lower", h-1), &ledger.HashHeight{Height: h - 1, Hash: b.Hash}, wrong})
				}
			}
		}
		if n == 0 {
			y.items = append(y.items, item{"1", &ledger.HashHeight{Height: 1, Hash: a.Hash}, missing})
		}
		s.accs = append(s.accs, y)
	}
	for sec := s.head.Timestamp.Unix() + 1; ; sec++ {
		if p, _ := scheduled(sec); p != nil && *p == Producer.Addr {
			s.time = time.Unix(sec, 0)
			break
		}
	}
	s.reopen(c)
	cached = s
	return s
}

// reopen opens the ledger with the schedule.
func (s *state) reopen(c *C) {
	// what is not flushed would be lost
	s.w.V = verifier.NewVerifier(s.w.Chain).Init(css{}, s.w.Reader, s.w.OR)
}

func sign(b *ledger.SnapshotBlock, by *Acct) {
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = by.Sign(b.Hash.Bytes())
}

// content with the chosen items
func (s *state) content(ch []int) (ledger.SnapshotContent, string) {
	m := ledger.SnapshotContent{}
	name := ""
	for i, a := range s.accs {
		it := a.items[ch[i]]
		if it.kind != absent {
			m[a.addr] = &ledger.HashHeight{Hash: it.hh.Hash, Height: it.hh.Height}
			name += a.name + "@" + it.name + " "
		}
	}
	return m, name
}

func (s *state) next(content ledger.SnapshotContent) *ledger.SnapshotBlock {
	t := s.time
	b := &ledger.SnapshotBlock{PrevHash: s.head.Hash, Height: s.head.Height + 1, Timestamp: &t, SnapshotContent: content}
	if upgrade.IsLeafUpgrade(b.Height) {
		b.Version = upgrade.GetLatestPoint().Version
	}
	return b
}

// hash by the definition
func hashOf(b *ledger.SnapshotBlock) types.Hash {
	var src []byte
	u64 := func(n uint64) {
		for i := 7; i >= 0; i-- {
			src = append(src, byte(n>>(8*uint(i))))
		}
	}
	src = append(src, b.PrevHash[:]...)
	u64(b.Height)
	u64(uint64(b.Timestamp.Unix()))
	u64(b.Seed)
	var sh types.Hash
	if b.SeedHash != nil {
		sh = *b.SeedHash
	}
	src = append(src, sh[:]...)
	var as []types.Address
	for a := range b.SnapshotContent {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	for _, a := range as {
		hh := b.SnapshotContent[a]
		src = append(src, a[:]...)
		src = append(src, hh.Hash[:]...)
		u64(hh.Height)
	}
	if p := upgrade.GetCurPoint(b.Height); p != nil {
		src = append(src, p.Name...)
	}
	if upgrade.IsLeafUpgrade(b.Height) {
		v := b.Version
		src = append(src, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return blake2b.Sum256(src)
}

// ok says whether the block is a valid next one; pend whether it lists blocks that are not there yet.
func (s *state) ok(b *ledger.SnapshotBlock, sigOK bool) (ok, pend bool, why string) {
	if b.Hash != hashOf(b) || b.Hash.IsZero() {
		return false, false, "hash"
	}
	if !sigOK {
		return false, false, "signature"
	}
	if b.Timestamp.After(time.Now().Add(time.Minute)) {
		return false, false, "from the future"
	}
	if b.Height != s.head.Height+1 {
		return false, false, "height"
	}
	if b.PrevHash != s.head.Hash {
		return false, false, "previous"
	}
	if !b.Timestamp.After(*s.head.Timestamp) {
		return false, false, "time"
	}
	for a, hh := range b.SnapshotContent {
		var known []item
		for _, x := range s.accs {
			if x.addr == a {
				known = x.items
			}
		}
		st := missing
		for _, it := range known {
			if it.hh != nil && it.hh.Height == hh.Height && it.hh.Hash == hh.Hash {
				st = it.kind
			}
		}
		switch st {
		case wrong:
			return false, false, "another block of the account"
		case missing:
			pend = true
			why = "unknown block"
		}
	}
	if pend {
		return false, true, why
	}
	p, err := scheduled(b.Timestamp.Unix())
	if err != nil || p == nil || *p != types.PubkeyToAddress(b.PublicKey) {
		return false, false, "producer"
	}
	return true, false, ""
}

func sigOK(b *ledger.SnapshotBlock) bool {
	if len(b.PublicKey) != ed25519.PublicKeySize || len(b.Signature) != ed25519.SignatureSize {
		return false
	}
	return ref.EdVerify(b.PublicKey, b.Hash.Bytes(), b.Signature)
}

func panicked(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (s *state) verify(c *C, w *World, what string, b *ledger.SnapshotBlock) bool {
	forms := []*ledger.SnapshotBlock{b}
	if buf, err := b.Serialize(); err == nil {
		n := &ledger.SnapshotBlock{}
		if err := n.Deserialize(buf); err == nil {
			forms = append(forms, n)
		}
	}
	res := false
	for i, x := range forms {
		where := []string{"given directly", "from the network"}[i]
		want, pend, why := s.ok(x, sigOK(x))
		var err error
		var st *verifier.SnapshotBlockVerifyStat
		if p := panicked(func() {
			if err = w.V.VerifyNetSnapshotBlock(x); err == nil {
				st = w.V.VerifyReferred(x)
			}
		}); p != nil {
			c.Fail("L07/panic", "%s, %s: verification panics: %v", what, where, p)
		}
		got := err == nil && st.VerifyResult() == verifier.SUCCESS
		if got && !want {
			c.Fail("L07/accepted", "%s, %s: an invalid snapshot block is accepted (%s): %s", what, where, why, JSON(x))
		}
		if want && !got {
			if err == nil {
				err = errors.New(st.ErrMsg())
			}
			c.Fail("L07/refused", "%s, %s: a valid snapshot block is refused: %v", what, where, err)
		}
		if pend && err == nil && st.VerifyResult() != verifier.PENDING {
			c.Fail("L07/pending", "%s, %s: the block waits for others, but is given up: %v", what, where, st.ErrMsg())
		}
		if why == "another block of the account" && err == nil && st.VerifyResult() != verifier.FAIL {
			c.Fail("L07/fork", "%s, %s: the block contradicts the ledger, but is %v", what, where, st.VerifyResult())
		}
		if pend && err != nil {
			c.Fail("L07/pending", "%s, %s: the block waits for others, but is refused: %v", what, where, err)
		}
		if (x.VerifySignature()) != sigOK(x) {
			c.Fail("L07/signature", "%s, %s: VerifySignature differs", what, where)
		}
		if err := w.V.VerifySnapshotBlockHash(x); (err == nil) != (x.Hash == hashOf(x) && !x.Hash.IsZero()) {
			c.Fail("L07/hash", "%s, %s: VerifySnapshotBlockHash says %v", what, where, err)
		}
		res = got
		c.AddTransitions(1)
	}
	return res
}

func contents() Scenario {
	return Scenario{Name: "content", Bound: "every choice, for five accounts, of nothing, an unconfirmed, a confirmed, a missing and a wrong block; accepted blocks are inserted", Timeout: 5 * time.Minute, Body: func(c *C) {
		s := get(c)
		ch := make([]int, len(s.accs))
		bad := 0
		for i, a := range s.accs {
			ch[i] = c.Choose(len(a.items))
			if k := a.items[ch[i]].kind; k >= confirmed {
				bad++
			}
		}
		if bad > 2 && c.Tier == "quick" {
			c.Prune()
		}
		content, name := s.content(ch)
		c.Op("%s", name)
		b := s.next(content)
		sign(b, Producer)
		old := false
		for i, a := range s.accs {
			if a.items[ch[i]].kind == confirmed {
				old = true
			}
		}
		if !s.verify(c, s.w, name, b) {
			c.State()
			return
		}
		if old {
			// nothing to confirm: the ledger must not insert it
			cp := s.copy(c)
			defer cp.Remove()
			if _, err := cp.Chain.InsertSnapshotBlock(b); err == nil {
				s.check(c, cp, name, ch, b)
			} else if h := cp.Chain.GetLatestSnapshotBlock(); h.Hash != s.head.Hash {
				c.Fail("L07/half", "%s: refused with %v, but inserted", name, err)
			}
			c.State()
			return
		}
		cp := s.copy(c)
		defer cp.Remove()
		nb := &ledger.SnapshotBlock{}
		buf, err := b.Serialize()
		must(c, err)
		must(c, nb.Deserialize(buf))
		if _, err := cp.Chain.InsertSnapshotBlock(nb); err != nil {
			c.Fail("L07/insert", "%s: the valid block cannot be inserted: %v", name, err)
		}
		s.check(c, cp, name, ch, b)
		c.State()
	}}
}

// copy is the same ledger, rebuilt from its blocks.
func (s *state) copy(c *C) *World {
	w, err := Open(Options{Dir: MkTemp("l07c")})
	must(c, err)
	src := s.w.Chain
	for h := uint64(2); h <= s.head.Height; h++ {
		chunks, err := src.GetSubLedger(h-1, h)
		must(c, err)
		last := chunks[len(chunks)-1]
		for _, b := range last.AccountBlocks {
			_, err := w.Submit(b)
			must(c, err)
		}
		_, err = w.InsertSnapshot(last.SnapshotBlock)
		must(c, err)
	}
	for _, b := range src.GetAllUnconfirmedBlocks() {
		_, err := w.Submit(b)
		must(c, err)
	}
	w.V = verifier.NewVerifier(w.Chain).Init(css{}, w.Reader, w.OR)
	return w
}

// check looks at what the inserted block confirms.
func (s *state) check(c *C, w *World, name string, ch []int, b *ledger.SnapshotBlock) {
	h := w.Chain.GetLatestSnapshotBlock()
	if h.Hash != b.Hash || h.Height != b.Height {
		c.Fail("L07/head", "%s: the head is %v after inserting %v", name, h.Hash, b.Hash)
	}
	for i, a := range s.accs {
		it := a.items[ch[i]]
		var to uint64
		if it.kind != absent {
			to = it.hh.Height
		}
		for _, x := range a.items {
			if x.kind != unconfirmed && x.kind != confirmed {
				continue
			}
			sb, err := w.Chain.GetConfirmSnapshotHeaderByAbHash(x.hh.Hash)
			must(c, err)
			blk, err := w.Chain.GetAccountBlockByHash(x.hh.Hash)
			must(c, err)
			switch {
			case x.kind == confirmed:
				if sb == nil || sb.Height >= b.Height {
					c.Fail("L07/confirms", "%s: block %s of %s was confirmed before", name, x.name, a.name)
				}
			case x.hh.Height <= to:
				if sb == nil || sb.Hash != b.Hash {
					c.Fail("L07/confirms", "%s: block %s of %s is not confirmed by the block", name, x.name, a.name)
				}
			default:
				if sb != nil {
					c.Fail("L07/confirms", "%s: block %s of %s is confirmed by %d", name, x.name, a.name, sb.Height)
				}
			}
			if blk == nil && x.hh.Height <= to {
				c.Fail("L07/lost", "%s: block %s of %s is gone", name, x.name, a.name)
			}
		}
	}
}

type mut struct {
	name string
	f    func(b *ledger.SnapshotBlock)
}

func (s *state) muts() []mut {
	var l []mut
	add := func(n string, f func(b *ledger.SnapshotBlock)) { l = append(l, mut{n, f}) }
	at := func(t time.Time) func(b *ledger.SnapshotBlock) {
		return func(b *ledger.SnapshotBlock) { b.Timestamp = &t }
	}
	add("time: head", at(*s.head.Timestamp))
	add("time: before head", at(s.head.Timestamp.Add(-time.Second)))
	add("time: 1970", at(time.Unix(0, 0)))
	for i := 1; i <= 60; i++ {
		add(fmt.Sprintf("time: head+%d", i), at(s.head.Timestamp.Add(time.Duration(i)*time.Second)))
	}
	sec := time.Now().Unix()
	find := func(from, step int64) time.Time {
		for {
			if p, _ := scheduled(from); p != nil && *p == Producer.Addr {
				return time.Unix(from, 0)
			}
			from += step
		}
	}
	add("time: just now", at(find(sec-1, -1)))
	add("time: in ten minutes", at(find(sec+600, 1)))
	add("time: in half an hour", at(find(sec+1800, 1)))
	add("time: in two hours", at(find(sec+7200, 1)))
	add("time: in 100 years", at(find(sec+3153600000, 1)))
	add("height+1", func(b *ledger.SnapshotBlock) { b.Height++ })
	add("height-1", func(b *ledger.SnapshotBlock) { b.Height-- })
	add("height 0", func(b *ledger.SnapshotBlock) { b.Height = 0 })
	add("height 1", func(b *ledger.SnapshotBlock) { b.Height = 1 })
	add("height max", func(b *ledger.SnapshotBlock) { b.Height = ^uint64(0) })
	add("prev changed", func(b *ledger.SnapshotBlock) { b.PrevHash[3] ^= 8 })
	add("prev zero", func(b *ledger.SnapshotBlock) { b.PrevHash = types.Hash{} })
	add("prev of head", func(b *ledger.SnapshotBlock) { b.PrevHash = s.head.PrevHash })
	add("prev genesis", func(b *ledger.SnapshotBlock) { b.PrevHash = s.w.Chain.GetGenesisSnapshotBlock().Hash })
	add("seed", func(b *ledger.SnapshotBlock) { b.Seed = 77 })
	add("seed hash", func(b *ledger.SnapshotBlock) { h := types.Hash{1, 2}; b.SeedHash = &h })
	add("version", func(b *ledger.SnapshotBlock) { b.Version++ })
	for _, x := range []struct {
		n  string
		ch []int
	}{{"none", []int{0, 0, 0, 0, 0}}, {"stranger", []int{0, 0, 0, 0, 1}}, {"one wrong", nil}, {"one missing", nil}, {"wrong and missing", nil}} {
		x := x
		if x.ch == nil {
			x.ch = make([]int, len(s.accs))
			for i, it := range s.accs[0].items {
				if it.kind == wrong && x.n != "one missing" || it.kind == missing && x.n == "one missing" {
					x.ch[0] = i
				}
			}
			if x.n == "wrong and missing" {
				for i, it := range s.accs[1].items {
					if it.kind == missing {
						x.ch[1] = i
					}
				}
			}
		}
		m, _ := s.content(x.ch)
		add("content: "+x.n, func(b *ledger.SnapshotBlock) { b.SnapshotContent = m })
	}
	return l
}

var seals = []struct {
	name string
	f    func(s *state, b *ledger.SnapshotBlock)
}{
	{"signed", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer) }},
	{"signed by the other producer", func(s *state, b *ledger.SnapshotBlock) { sign(b, Users[3]) }},
	{"signed by a user", func(s *state, b *ledger.SnapshotBlock) { sign(b, Users[0]) }},
	{"key of the producer, signed by a user", func(s *state, b *ledger.SnapshotBlock) {
		sign(b, Users[0])
		b.PublicKey = Producer.Pub
	}},
	{"key of a user, signed by the producer", func(s *state, b *ledger.SnapshotBlock) {
		sign(b, Producer)
		b.PublicKey = Users[0].Pub
	}},
	{"no signature", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.Signature = nil }},
	{"no key", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.PublicKey = nil }},
	{"neither", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.PublicKey, b.Signature = nil, nil }},
	{"half a signature", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.Signature = b.Signature[:32] }},
	{"half a key", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.PublicKey = b.PublicKey[:16] }},
	{"changed signature", func(s *state, b *ledger.SnapshotBlock) { sign(b, Producer); b.Signature[40] ^= 4 }},
	{"no hash", func(s *state, b *ledger.SnapshotBlock) {
		b.Hash = types.Hash{}
		b.Signature, b.PublicKey, _ = Producer.Sign(b.Hash.Bytes())
	}},
	{"changed hash", func(s *state, b *ledger.SnapshotBlock) {
		b.Hash = b.ComputeHash()
		b.Hash[0] ^= 1
		b.Signature, b.PublicKey, _ = Producer.Sign(b.Hash.Bytes())
	}},
	{"hash and signature of the honest block", func(s *state, b *ledger.SnapshotBlock) {
		m, _ := s.content(s.full())
		h := s.next(m)
		sign(h, Producer)
		b.Hash, b.Signature, b.PublicKey = h.Hash, h.Signature, h.PublicKey
	}},
	{"signature of the honest block", func(s *state, b *ledger.SnapshotBlock) {
		m, _ := s.content(s.full())
		h := s.next(m)
		sign(h, Producer)
		b.Hash, b.Signature, b.PublicKey = b.ComputeHash(), h.Signature, h.PublicKey
	}},
	{"hash of the genesis block", func(s *state, b *ledger.SnapshotBlock) {
		b.Hash = s.w.Chain.GetGenesisSnapshotBlock().Hash
		b.Signature, b.PublicKey, _ = Producer.Sign(b.Hash.Bytes())
	}},
}

// full is the choice of everything unconfirmed
func (s *state) full() []int {
	ch := make([]int, len(s.accs))
	for i, a := range s.accs {
		for k, it := range a.items {
			if it.kind == unconfirmed {
				ch[i] = k
			}
		}
	}
	return ch
}

func fields() Scenario {
	return Scenario{Name: "fields", Bound: "the honest block with every one and every two fields changed, hashed and signed in 16 ways", Timeout: 5 * time.Minute, Body: func(c *C) {
		s := get(c)
		ms := append([]mut{{"unchanged", func(*ledger.SnapshotBlock) {}}}, s.muts()...)
		i := c.Choose(len(ms))
		sl := seals[c.Choose(len(seals))]
		c.Op("%s, %s", ms[i].name, sl.name)
		for j := i; j < len(ms); j++ {
			m, _ := s.content(s.full())
			b := s.next(m)
			ms[i].f(b)
			if j > i {
				ms[j].f(b)
			}
			sl.f(s, b)
			s.verify(c, s.w, ms[i].name+", "+ms[j].name+", "+sl.name, b)
		}
		c.State()
	}}
}

func main() {
	Silence()
	Main(Suite{Property: "L07", QuickBudget: 100 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		return []Scenario{fields(), contents()}
	}})
}
