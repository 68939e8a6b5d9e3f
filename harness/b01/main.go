// Property B01: a block's hash binds its content and its encoding loses nothing.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/golang/protobuf/proto"
	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

func h(b byte) (r types.Hash) {
	for i := range r {
		r[i] = b + byte(i)
	}
	return
}

func addr(b, kind byte) (a types.Address) {
	for i := range a {
		a[i] = b ^ byte(i*7)
	}
	a[20] = kind
	return
}

func tid(b byte) (t types.TokenTypeId) {
	for i := range t {
		t[i] = b + byte(i)
	}
	return
}

func u64(n uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, n); return b }

func pad(b []byte, n int) []byte {
	if len(b) >= n {
		return b
	}
	return append(make([]byte, n-len(b)), b...)
}

func b256(p ...[]byte) (r types.Hash) {
	s := blake2b.Sum256(bytes.Join(p, nil))
	copy(r[:], s[:])
	return
}

func isSend(t byte) bool { return t == 1 || t == 2 || t == 3 || t == 6 }

// source is the published content of an account block's hash.
func source(b *ledger.AccountBlock, extra ...[]byte) [][]byte {
	p := [][]byte{{b.BlockType}, b.PrevHash[:], u64(b.Height), b.AccountAddress[:]}
	if isSend(b.BlockType) {
		p = append(p, b.ToAddress[:], pad(b.Amount.Bytes(), 32), b.TokenId[:])
	} else {
		p = append(p, b.FromBlockHash[:])
	}
	if len(b.Data) > 0 {
		d := b256(b.Data)
		p = append(p, d[:])
	}
	var fee []byte
	if b.Fee != nil {
		fee = b.Fee.Bytes()
	}
	p = append(p, pad(fee, 32))
	if b.LogHash != nil {
		p = append(p, b.LogHash[:])
	}
	p = append(p, pad(b.Nonce, 8))
	for _, s := range b.SendBlockList {
		p = append(p, s.Hash[:])
	}
	return append(p, extra...)
}

func num(n *big.Int) string {
	if n == nil {
		return "0"
	}
	return n.String()
}

func lh(n *types.Hash) string {
	if n == nil {
		return "none"
	}
	return n.String()
}

// text is a canonical rendering of everything an account block carries (or of what its hash must bind).
func text(b *ledger.AccountBlock, bound bool) string {
	s := fmt.Sprintf("%d|%s|%d|%s|", b.BlockType, b.PrevHash, b.Height, b.AccountAddress.Bytes())
	if isSend(b.BlockType) {
		s += fmt.Sprintf("%x|%s|%s|", b.ToAddress.Bytes(), num(b.Amount), b.TokenId)
	} else {
		s += fmt.Sprintf("%s|", b.FromBlockHash)
	}
	s += fmt.Sprintf("%x|%s|%s|%x|", b.Data, num(b.Fee), lh(b.LogHash), b.Nonce)
	if bound {
		for _, x := range b.SendBlockList {
			s += x.Hash.String() + ","
		}
		return s
	}
	s += fmt.Sprintf("%s|%x|%x|%d|%d|%s|", b.Hash, []byte(b.PublicKey), b.Signature, b.Quota, b.QuotaUsed, num(b.Difficulty))
	if b.BlockType == 7 {
		s += fmt.Sprintf("%s|%s|", num(b.Amount), b.TokenId)
	}
	for _, x := range b.SendBlockList {
		s += "[" + text(x, false) + "]"
	}
	return s
}

var maxU = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func inner(i byte) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: 2, Height: 3 + uint64(i), PrevHash: h(40 + i), AccountAddress: addr(1, 1), ToAddress: addr(9, 0), Amount: big.NewInt(int64(i)), TokenId: tid(3), Fee: big.NewInt(0), Data: []byte{i}}
	b.Hash = h(100 + i)
	return b
}

// block builds the block of one point of the product; every list is indexed by a choice.
func block(v [14]int) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: byte(1 + v[0])}
	b.Height = []uint64{1, 2, 1<<56 + 258, 1<<64 - 1}[v[1]]
	if b.Height > 1 {
		b.PrevHash = h(byte(50 + v[2]))
	}
	b.AccountAddress = addr(byte(v[3]), byte(v[3]&1))
	if isSend(b.BlockType) {
		b.ToAddress = addr(byte(70+v[4]), byte(v[4]&1))
		b.Amount = []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(256), maxU}[v[5]]
		b.TokenId = tid(byte(v[4] * 10))
	} else {
		b.FromBlockHash = h(byte(150 + v[4]))
		if b.BlockType == 7 {
			b.Amount, b.TokenId = big.NewInt(int64(v[5]*300)), tid(byte(v[4]))
		}
	}
	b.Data = [][]byte{nil, {0}, {0, 0}, bytes.Repeat([]byte{9}, 200)}[v[6]]
	b.Fee = []*big.Int{nil, big.NewInt(0), big.NewInt(1), maxU}[v[7]]
	if v[8] > 0 {
		x := h(byte(190 + v[8]))
		b.LogHash = &x
	}
	b.Nonce = [][]byte{nil, {0, 0, 0, 0, 0, 0, 0, 1}, {1, 2, 3, 4, 5, 6, 7, 8}}[v[9]]
	for i := 0; i < v[10]; i++ {
		b.SendBlockList = append(b.SendBlockList, inner(byte(i)))
	}
	if v[10] == 3 { // the same two, swapped
		b.SendBlockList = []*ledger.AccountBlock{inner(1), inner(0)}
	}
	b.Difficulty = []*big.Int{nil, big.NewInt(67108863), maxU}[v[11]]
	b.Quota, b.QuotaUsed = []uint64{0, 21000, 1 << 40}[v[12]], []uint64{0, 42000, 5}[v[12]]
	b.Hash = h(byte(7 + v[13]))
	b.PublicKey, b.Signature = bytes.Repeat([]byte{byte(v[13])}, 32), bytes.Repeat([]byte{byte(v[13] + 1)}, 64)
	return b
}

var size = [14]int{7, 4, 2, 2, 2, 4, 4, 4, 3, 3, 4, 3, 3, 2}

func roundtrip(c *C, b *ledger.AccountBlock) {
	want := text(b, false)
	buf, err := b.Serialize()
	if err != nil {
		c.Fail("B01/serialize", "%v", err)
	}
	if text(b, false) != want {
		c.Fail("B01/serialize", "encoding changed the block")
	}
	d := &ledger.AccountBlock{}
	if err := d.Deserialize(buf); err != nil {
		c.Fail("B01/decode", "decoding a block: %v", err)
	}
	if got := text(d, false); got != want {
		c.Fail("B01/roundtrip", "block %s decodes as %s", want, got)
	}
	if d.ComputeHash() != b.ComputeHash() {
		c.Fail("B01/roundtrip-hash", "the decoded block has another hash")
	}
	cp := b.Copy()
	if got := text(cp, false); got != want {
		c.Fail("B01/copy", "block %s copies as %s", want, got)
	}
}

func scrub(b *ledger.AccountBlock) {
	zap := func(l []byte) {
		for i := range l {
			l[i] ^= 0xff
		}
	}
	for _, n := range []*big.Int{b.Amount, b.Fee, b.Difficulty} {
		if n != nil {
			n.Add(n, big.NewInt(77))
		}
	}
	zap(b.Data)
	zap(b.Nonce)
	zap(b.Signature)
	if b.LogHash != nil {
		b.LogHash[3] ^= 1
	}
	for _, s := range b.SendBlockList {
		scrub(s)
		s.Height++
		s.Hash[1] ^= 1
	}
	b.Height, b.AccountAddress[3] = b.Height+5, 99
}

var boxes = []func(){
	func() { upgrade.InitUpgradeBox(upgrade.NewEmptyUpgradeBox()) },
	func() { upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox()) },
	func() {
		b := upgrade.NewEmptyUpgradeBox()
		upgrade.InitUpgradeBox(b)
		for i, at := range []uint64{2, 5, 5, 9, 12} {
			upgrade.AddUpgradePoint(uint32(i+1), at)
		}
	},
	func() { upgrade.InitUpgradeBox(upgrade.NewMainnetUpgradeBox()) },
}

func setBox(k int) {
	upgrade.CleanupUpgradeBox()
	boxes[k]()
}

// snapshotHash is the published content of a snapshot block's hash.
func snapshotHash(b *ledger.SnapshotBlock) types.Hash {
	p := [][]byte{b.PrevHash[:], u64(b.Height), u64(uint64(b.Timestamp.Unix())), u64(b.Seed)}
	if b.SeedHash != nil {
		p = append(p, b.SeedHash[:])
	} else {
		p = append(p, make([]byte, 32))
	}
	var l []string
	for a, x := range b.SnapshotContent {
		l = append(l, string(a[:])+string(x.Hash[:])+string(u64(x.Height)))
	}
	sort.Strings(l)
	for _, s := range l {
		p = append(p, []byte(s))
	}
	var cur *upgrade.UpgradePoint
	leaf := false
	for _, u := range upgrade.GetAllPoints() {
		if u.Height <= b.Height {
			if cur == nil || u.Version > cur.Version {
				cur = u
			}
			leaf = leaf || u.Version == 5
		}
	}
	if cur != nil {
		p = append(p, []byte(cur.Name))
	}
	if leaf {
		v := make([]byte, 4)
		binary.BigEndian.PutUint32(v, b.Version)
		p = append(p, v)
	}
	return b256(p...)
}

func stext(b *ledger.SnapshotBlock, bound, versioned bool) string {
	t := b.Timestamp.Unix()
	if !bound {
		t = b.Timestamp.UnixNano()
	}
	s := fmt.Sprintf("%s|%d|%d|%d|", b.PrevHash, b.Height, t, b.Seed)
	if bound && b.SeedHash == nil {
		s += types.Hash{}.String()
	} else {
		s += lh(b.SeedHash)
	}
	var l []string
	for a, x := range b.SnapshotContent {
		l = append(l, fmt.Sprintf("%x:%s:%d", a[:], x.Hash, x.Height))
	}
	sort.Strings(l)
	s += fmt.Sprint(l)
	if versioned || !bound {
		s += fmt.Sprint("|", b.Version)
	}
	if !bound {
		s += fmt.Sprintf("|%s|%x|%x", b.Hash, []byte(b.PublicKey), b.Signature)
	}
	return s
}

func content(k int, order int) ledger.SnapshotContent {
	all := []types.Address{addr(1, 0), addr(2, 1), addr(200, 0), addr(1, 1)}
	sc := ledger.SnapshotContent{}
	var l []int
	for i := 0; i < 4; i++ {
		if k&(1<<uint(i)) != 0 {
			l = append(l, i)
		}
	}
	for i := range l {
		j := l[(i+order)%len(l)]
		sc[all[j]] = &ledger.HashHeight{Hash: h(byte(j * 20)), Height: uint64(j + 1)}
	}
	if k&16 != 0 && len(l) > 0 {
		sc[all[l[0]]].Height += 1 << 40
	}
	return sc
}

func main() {
	Main(Suite{Property: "B01", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		return []Scenario{
			{Name: "account-hash", Bound: "the full product of 7 types, heights, addresses, amounts, data, fees, log hashes, nonces and embedded sends: the hash is the published function and no two contents share one", Body: func(c *C) {
				var v [14]int
				v[0] = c.Choose(7)
				v[1] = c.Choose(4)
				seen := map[types.Hash]string{}
				var rec func(i int)
				rec = func(i int) {
					if i == 11 {
						b := block(v)
						got, want := b.ComputeHash(), b256(source(b)...)
						if got != want {
							c.Fail("B01/account-hash", "block %s hashes to %s, expected %s", text(b, true), got, want)
						}
						t := text(b, true)
						if o, ok := seen[got]; ok && o != t {
							c.Fail("B01/account-collision", "blocks %s and %s share a hash", o, t)
						}
						seen[got] = t
						c.AddStates(1)
						return
					}
					n := size[i]
					if quick && (i == 3 || i == 7) {
						n = n/2 + 1
					}
					for k := 0; k < n; k++ {
						v[i] = k
						rec(i + 1)
					}
				}
				rec(2)
			}},
			{Name: "account-send-hash", Bound: "hashes of sends embedded at every index 0 to 255 of 12 host blocks", Body: func(c *C) {
				k := c.Choose(12)
				host := block([14]int{3, k % 4, k % 2, k % 2})
				seen := map[types.Hash]bool{}
				for i := 0; i < 256; i++ {
					for s := byte(0); s < 3; s++ {
						b := inner(s)
						got := b.ComputeSendHash(host, uint8(i))
						want := b256(source(b, host.PrevHash[:], u64(host.Height), []byte{byte(i)})...)
						if got != want || seen[got] {
							c.Fail("B01/send-hash", "send %d at index %d: %s, expected %s (seen %v)", s, i, got, want, seen[got])
						}
						seen[got] = true
						c.AddStates(1)
					}
				}
			}},
			{Name: "account-roundtrip", Bound: "every pair of field values over all types, encoded, decoded and copied", Body: func(c *C) {
				t := c.Choose(7)
				i := 1 + c.Choose(13)
				var v [14]int
				v[0] = t
				for k := 0; k < size[i]; k++ {
					for j := 1; j < 14; j++ {
						for m := 0; m < size[j]; m++ {
							for rest := 0; rest < 2; rest++ {
								for x := 1; x < 14; x++ {
									v[x] = rest * (size[x] - 1)
								}
								v[i], v[j] = k, m
								b := block(v)
								roundtrip(c, b)
								// a copy shares nothing that changes
								b = block(v)
								want := text(b, false)
								cp := b.Copy()
								if len(cp.Data) > 0 && cap(maxU.Bits()) > 0 {
									for _, n := range []**big.Int{&b.Amount, &b.Fee, &b.Difficulty} {
										if *n == maxU {
											*n = new(big.Int).Set(maxU)
										}
									}
									cp = b.Copy()
								}
								scrub(cp)
								if text(b, false) != want {
									c.Fail("B01/copy-shared", "changing a copy of %s changed the block", want)
								}
								c.AddStates(1)
							}
						}
					}
				}
			}},
			{Name: "account-unbound", Bound: "signature, key, quota and difficulty do not enter the hash", Body: func(c *C) {
				var v [14]int
				v[0] = c.Choose(7)
				v[6] = c.Choose(4)
				v[10] = c.Choose(4)
				want := block(v).ComputeHash()
				for a := 0; a < 3; a++ {
					for b := 0; b < 3; b++ {
						for d := 0; d < 2; d++ {
							v[11], v[12], v[13] = a, b, d
							if block(v).ComputeHash() != want {
								c.Fail("B01/unbound", "the hash depends on quota, difficulty, key or signature")
							}
							c.AddStates(1)
						}
					}
				}
			}},
			{Name: "account-malformed", Bound: "every fixed-size field of every type of block with each wrong length", Body: func(c *C) {
				var v [14]int
				for i := range v {
					v[i] = 1
				}
				v[0] = c.Choose(7)
				nested := c.Bool()
				b := block(v)
				pick := func(p *vitepb.AccountBlock) []*[]byte {
					l := []*[]byte{&p.AccountAddress, &p.Hash, &p.PrevHash, &p.LogHash}
					if isSend(byte(p.BlockType)) {
						l = append(l, &p.ToAddress, &p.TokenId)
					} else {
						l = append(l, &p.FromBlockHash)
					}
					return l
				}
				for f := 0; ; f++ {
					for _, cut := range []int{-32, -2, -1, 1, 2, 11} {
						p := b.Proto()
						if nested {
							p = p.SendBlockList[0]
						}
						l := pick(p)
						if f >= len(l) {
							return
						}
						if n := len(*l[f]); n+cut > 0 {
							*l[f] = append(append([]byte{}, *l[f]...), make([]byte, 40)...)[:n+cut]
						} else if cut == -32 && l[f] != &p.LogHash {
							*l[f] = nil
						} else {
							continue
						}
						if nested {
							q := b.Proto()
							q.SendBlockList[0] = p
							p = q
						}
						buf, err := proto.Marshal(p)
						if err != nil {
							panic(err)
						}
						d := &ledger.AccountBlock{}
						if err := d.Deserialize(buf); err == nil {
							c.Fail(fmt.Sprintf("B01/malformed-%d", f), "field %d with %d bytes too many is decoded as %s", f, cut, text(d, false))
						}
						c.AddStates(1)
					}
				}
			}},
			{Name: "snapshot", Bound: "4 upgrade schedules, heights 1 to 14 and around every mainnet upgrade, times, seeds, seed hashes, contents of 0 to 4 accounts in every order, versions: the hash is the published function and nothing is lost", Body: func(c *C) {
				k := c.Choose(4)
				setBox(k)
				var heights []uint64
				for i := uint64(1); i < 15; i++ {
					heights = append(heights, i)
				}
				for _, p := range upgrade.NewMainnetUpgradeBox().UpgradePoints() {
					heights = append(heights, p.Height-1, p.Height)
				}
				n := len(heights)
				height := heights[c.Choose(n)]
				leaf := upgrade.IsLeafUpgrade(height)
				seen := map[types.Hash]string{}
				for cn := 0; cn < 32; cn++ {
					for x := 0; x < 72; x++ {
						t := time.Unix(1600000000+int64(x%2), int64(x%3)*1000)
						b := &ledger.SnapshotBlock{Height: height, PrevHash: h(byte(x / 2 % 2)), Timestamp: &t, Seed: []uint64{0, 1, 1<<64 - 1}[x/4%3], Version: uint32(x / 12 % 2 * 70000), SnapshotContent: content(cn, x)}
						if x/24 > 0 {
							y := h(byte(x / 24))
							b.SeedHash = &y
						}
						got, want := b.ComputeHash(), snapshotHash(b)
						if got != want {
							c.Fail("B01/snapshot-hash", "snapshot block %s under schedule %d hashes to %s, expected %s", stext(b, true, leaf), k, got, want)
						}
						t1 := stext(b, true, leaf)
						if o, ok := seen[got]; ok && o != t1 {
							c.Fail("B01/snapshot-collision", "snapshot blocks %s and %s share a hash", o, t1)
						}
						seen[got] = t1
						b.Hash, b.PublicKey, b.Signature = got, []byte{1, 2}, []byte{3}
						if b.ComputeHash() != got {
							c.Fail("B01/snapshot-unbound", "the hash of a snapshot block depends on its signature, key or hash")
						}
						buf, err := b.Serialize()
						d := &ledger.SnapshotBlock{}
						if err == nil {
							err = d.Deserialize(buf)
						}
						if err != nil || stext(d, false, true) != stext(b, false, true) {
							c.Fail("B01/snapshot-roundtrip", "snapshot block %s decodes as %s (%v)", stext(b, false, true), stext(d, false, true), err)
						}
						if x < 4 {
							e := *b
							e.SnapshotContent = content(cn, x+1)
							if buf2, _ := e.Serialize(); !bytes.Equal(buf, buf2) || e.ComputeHash() != got {
								c.Fail("B01/snapshot-order", "encoding or hash of a snapshot block depends on the order in which its content was collected")
							}
						}
						c.AddStates(1)
					}
				}
			}},
			{Name: "snapshot-malformed", Bound: "every fixed-size field of a snapshot block with each wrong length", Body: func(c *C) {
				setBox(1)
				t := time.Unix(1600000000, 0)
				y := h(3)
				b := &ledger.SnapshotBlock{Height: 5, PrevHash: h(1), Timestamp: &t, SeedHash: &y, SnapshotContent: content(15, 0)}
				b.Hash = b.ComputeHash()
				for f := 0; f < 4; f++ {
					for cut := -60; cut <= 40; cut++ {
						p := b.Proto()
						l := []*[]byte{&p.Hash, &p.PrevHash, &p.SeedHash, &p.SnapshotContent}[f]
						n := len(*l) + cut
						if n <= 0 || cut == 0 || n%ledger.ScItemBytesLen == 0 && f == 3 {
							continue
						}
						*l = append(append([]byte{}, *l...), make([]byte, 40)...)[:n]
						buf, err := proto.Marshal(p)
						if err != nil {
							panic(err)
						}
						if err := new(ledger.SnapshotBlock).Deserialize(buf); err == nil {
							c.Fail("B01/snapshot-malformed", "field %d with %d bytes is decoded", f, n)
						}
						c.AddStates(1)
					}
				}
			}},
			{Name: "records", Bound: "contract metadata with every byte value and both formats; seed hashes; hash-height pairs; event lists of up to 3 entries under 4 upgrade schedules", Body: func(c *C) {
				k := c.Choose(4)
				setBox(k)
				for i := 0; i < 256; i++ {
					m := ledger.ContractMeta{Gid: types.Gid{byte(i), 1, 2}, SendConfirmedTimes: byte(i), CreateBlockHash: h(byte(i)), QuotaRatio: byte(i * 3), SeedConfirmedTimes: byte(i * 5)}
					buf, err := m.Serialize()
					var d, o ledger.ContractMeta
					if err != nil || d.Deserialize(buf) != nil || d != m {
						c.Fail("B01/meta", "contract metadata %+v decodes as %+v", m, d)
					}
					if err := o.Deserialize(buf[:len(buf)-1]); err != nil || o.SeedConfirmedTimes != m.SendConfirmedTimes || o.QuotaRatio != m.QuotaRatio || o.CreateBlockHash != m.CreateBlockHash {
						c.Fail("B01/meta-old", "contract metadata in the old format decodes as %+v", o)
					}
					hh := ledger.HashHeight{Hash: h(byte(i)), Height: uint64(i) << 50}
					buf, err = hh.Serialize()
					var e ledger.HashHeight
					if err != nil || e.Deserialize(buf) != nil || e != hh {
						c.Fail("B01/hash-height", "%+v decodes as %+v", hh, e)
					}
					t := time.Unix(int64(i)*7919, 5)
					if got, want := ledger.ComputeSeedHash(uint64(i)<<40+3, h(byte(i)), &t), b256(u64(uint64(i)<<40+3), h(byte(i)).Bytes(), u64(uint64(i)*7919)); got != want {
						c.Fail("B01/seed-hash", "seed hash %s, expected %s", got, want)
					}
					c.AddStates(4)
				}
				for x := 0; x < 4096; x++ {
					var l ledger.VmLogList
					src := []byte{}
					for i, y := 0, x; i < 3; i, y = i+1, y/16 {
						if y%16 == 15 {
							break
						}
						g := &ledger.VmLog{}
						for t := 0; t < y%4; t++ {
							g.Topics = append(g.Topics, h(byte(t+i)))
							src = append(src, h(byte(t+i)).Bytes()...)
						}
						if y%16 > 3 {
							g.Data = bytes.Repeat([]byte{byte(y)}, y%16*5)
							src = append(src, g.Data...)
						}
						l = append(l, g)
					}
					for _, sh := range []uint64{1, 2, 3488470, 3488471} {
						a, p := addr(3, 1), h(77)
						got := l.Hash(sh, a, p)
						seed := false
						for _, u := range upgrade.GetAllPoints() {
							seed = seed || u.Version == 1 && u.Height <= sh
						}
						s := src
						if seed {
							s = append(append(append([]byte{}, src...), a[:]...), p[:]...)
						}
						if len(l) == 0 && got != nil || len(l) > 0 && (got == nil || *got != b256(s)) {
							c.Fail("B01/events-hash", "hash of %d events at %d under schedule %d is %v", len(l), sh, k, got)
						}
					}
					buf, err := l.Serialize()
					var d ledger.VmLogList
					if err == nil {
						err = d.Deserialize(buf)
					}
					a, _ := json.Marshal(l)
					b, _ := json.Marshal(d)
					if err != nil || !bytes.Equal(a, b) {
						c.Fail("B01/events", "events %s decode as %s (%v)", a, b, err)
					}
					c.AddStates(1)
				}
			}},
			{Name: "widths", Bound: "every length 0 to 8 of a nonce, 0 to 32 bytes of an amount and a fee, 0 to 300 and around 4096 and 65536 bytes of data, 0 to 40 embedded sends, on every type: the hash is the published function and the encoding loses nothing", Body: func(c *C) {
				t := c.Choose(7)
				var v [14]int
				for i := range v {
					v[i] = 1
				}
				v[0] = t
				seen := map[types.Hash]string{}
				try := func(f func(b *ledger.AccountBlock)) {
					b := block(v)
					f(b)
					got, want := b.ComputeHash(), b256(source(b)...)
					if got != want {
						c.Fail("B01/account-hash", "block %s hashes to %s, expected %s", text(b, true), got, want)
					}
					s := text(b, true)
					if o, ok := seen[got]; ok && o != s {
						c.Fail("B01/account-collision", "blocks %s and %s share a hash", o, s)
					}
					seen[got] = s
					roundtrip(c, b)
					c.AddStates(1)
				}
				seq := func(n int) []byte {
					d := make([]byte, n)
					for i := range d {
						d[i] = byte(i*5 + n + 1)
					}
					return d
				}
				for n := 1; n <= 8; n++ {
					if n == 8 { // a shorter nonce means the same as a padded one
						try(func(b *ledger.AccountBlock) { b.Nonce = seq(n) })
						continue
					}
					b := block(v)
					b.Nonce = seq(n)
					if got, want := b.ComputeHash(), b256(source(b)...); got != want {
						c.Fail("B01/account-hash", "a block with a nonce of %d bytes hashes to %s, expected %s", n, got, want)
					}
					roundtrip(c, b)
					c.AddStates(1)
				}
				for n := uint(0); n < 256; n++ {
					x := new(big.Int).Lsh(big.NewInt(1), n)
					try(func(b *ledger.AccountBlock) { b.Fee = x })
					if isSend(byte(t + 1)) {
						try(func(b *ledger.AccountBlock) { b.Amount = x })
					}
					b := block(v)
					b.Difficulty = x
					roundtrip(c, b)
				}
				lens := []int{4095, 4096, 4097, 65535, 65536, 65537, 200000}
				for n := 0; n <= 300; n++ {
					lens = append(lens, n)
				}
				for _, n := range lens {
					try(func(b *ledger.AccountBlock) { b.Data = seq(n) })
					if n > 0 {
						try(func(b *ledger.AccountBlock) { b.Data = seq(n); b.Data[n-1] ^= 0x80 })
					}
				}
				for n := 0; n <= 40; n++ {
					try(func(b *ledger.AccountBlock) {
						b.SendBlockList = nil
						for i := 0; i < n; i++ {
							b.SendBlockList = append(b.SendBlockList, inner(byte(i)))
						}
					})
					for m := 0; m+1 < n; m++ { // any two neighbours exchanged
						try(func(b *ledger.AccountBlock) {
							b.SendBlockList = nil
							for i := 0; i < n; i++ {
								b.SendBlockList = append(b.SendBlockList, inner(byte(i)))
							}
							b.SendBlockList[m], b.SendBlockList[m+1] = b.SendBlockList[m+1], b.SendBlockList[m]
						})
					}
				}
				for _, l := range []int{32, 21, 10, 8, 1, 33} { // every single bit of every fixed field
					for bit := 0; bit < 8*l; bit++ {
						i, m := bit/8, byte(1)<<uint(bit%8)
						if l == 21 && i == 20 && bit%8 > 0 {
							continue
						}
						switch l {
						case 32:
							try(func(b *ledger.AccountBlock) { b.PrevHash[i] ^= m })
							try(func(b *ledger.AccountBlock) { b.FromBlockHash[i] ^= m })
							try(func(b *ledger.AccountBlock) { b.LogHash[i] ^= m })
							try(func(b *ledger.AccountBlock) { b.SendBlockList[0].Hash[i] ^= m })
						case 21:
							try(func(b *ledger.AccountBlock) { b.AccountAddress[i] ^= m })
							try(func(b *ledger.AccountBlock) { b.ToAddress[i] ^= m })
						case 10:
							try(func(b *ledger.AccountBlock) { b.TokenId[i] ^= m })
						case 8:
							try(func(b *ledger.AccountBlock) { b.Height ^= 1 << uint(bit); b.Height |= 1 << 63 })
							try(func(b *ledger.AccountBlock) { b.Quota, b.QuotaUsed = 1<<uint(bit), 1<<uint(63-bit) })
						}
					}
				}
			}},
			{Name: "types", Bound: "every block type byte 0 to 255 and every address of a built-in contract: the classification and the metadata they stand for; every pair of events in order; every update of a range of heights", Body: func(c *C) {
				for t := 0; t < 256; t++ {
					send, recv := isSend(byte(t)), t == 4 || t == 5 || t == 7
					for _, height := range []uint64{1, 2} {
						b := ledger.AccountBlock{BlockType: byte(t), Height: height}
						if b.IsSendBlock() != send || b.IsReceiveBlock() != recv || ledger.IsSendBlock(byte(t)) != send || ledger.IsReceiveBlock(byte(t)) != recv || b.IsGenesisBlock() != (t == 7 && height == 1) {
							c.Fail("B01/types", "block type %d at height %d is classified send=%v receive=%v genesis=%v", t, height, b.IsSendBlock(), b.IsReceiveBlock(), b.IsGenesisBlock())
						}
					}
					for _, kind := range []byte{0, 1} {
						var a types.Address
						a[19], a[20] = byte(t), kind
						m := ledger.GetBuiltinContractMeta(a)
						var want *ledger.ContractMeta
						if kind == 1 && t >= 3 && t <= 7 {
							want = &ledger.ContractMeta{Gid: types.Gid{9: 2}, QuotaRatio: 10}
							if t <= 5 {
								want.SendConfirmedTimes = 1
							}
						}
						if (m == nil) != (want == nil) || m != nil && *m != *want {
							c.Fail("B01/builtin-meta", "metadata of built-in address %d/%d is %+v, expected %+v", t, kind, m, want)
						}
					}
					c.AddStates(1)
				}
				hh := ledger.HashHeight{Hash: h(1), Height: 5}
				for i := 0; i < 4; i++ {
					if got := hh.Equal(h(byte(1+i&1)), uint64(5+i/2)); got != (i == 0) {
						c.Fail("B01/hash-height-equal", "equality of a hash and height is %v in case %d", got, i)
					}
				}
				for x := 0; x < 625; x++ {
					r := ledger.NewHeightRange(3, h(99))
					lo, hi := ledger.HashHeight{Hash: h(99), Height: 3}, ledger.HashHeight{Hash: h(99), Height: 3}
					for i, y := 0, x; i < 4; i, y = i+1, y/5 {
						n := ledger.HashHeight{Hash: h(byte(i)), Height: uint64(1 + y%5)}
						r.Update(n.Height, n.Hash)
						if n.Height < lo.Height {
							lo = n
						}
						if n.Height > hi.Height {
							hi = n
						}
					}
					if r.Start != lo || r.End != hi {
						c.Fail("B01/height-range", "range %+v, expected %+v to %+v", r, lo, hi)
					}
					c.AddStates(1)
				}
				var l ledger.VmLogList
				for n := 0; n < 4; n++ {
					for t := 0; t < 1<<uint(n); t++ {
						for d := 0; d < 3; d++ {
							g := &ledger.VmLog{Data: []byte{1, 2}[:d]}
							for i := 0; i < n; i++ {
								g.Topics = append(g.Topics, h(byte(t>>uint(n-1-i)&1)))
							}
							l = append(l, g)
						}
					}
				}
				for i := range l {
					for j := range l {
						if l.Less(i, j) != (i < j) {
							c.Fail("B01/events-order", "event %d and event %d are ordered wrongly", i, j)
						}
						c.AddStates(1)
					}
				}
				setBox(0)
				for n := 0; n <= 8; n++ {
					g := &ledger.VmLog{Data: []byte{7}}
					var src []byte
					for i := 0; i < n; i++ {
						g.Topics = append(g.Topics, h(byte(i*3)))
						src = append(src, h(byte(i*3)).Bytes()...)
					}
					l := ledger.VmLogList{g}
					if got := l.Hash(1, addr(3, 1), h(77)); *got != b256(src, []byte{7}) {
						c.Fail("B01/events-hash", "hash of an event with %d topics is %s", n, got)
					}
					buf, err := l.Serialize()
					var d ledger.VmLogList
					if err != nil || d.Deserialize(buf) != nil || len(d) != 1 || fmt.Sprint(*d[0]) != fmt.Sprint(*g) {
						c.Fail("B01/events", "an event with %d topics decodes as %v", n, d)
					}
				}
			}},
		}
	}, Assumptions: []string{"contents within the protocol's ranges: amounts and fees below 2^256, nonces of 0 or 8 bytes, a first block has no predecessor; a fee equal to the 256-bit hash of some data is not considered"}})
}
