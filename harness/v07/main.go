// Property V07: a contract sees its own writes over the ledger, and discarding them leaves no trace.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var self = vmkit.ContractAddr(1)
var other = vmkit.ContractAddr(2)
var toks = []types.TokenTypeId{vmkit.Vite, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}}

type model struct {
	base map[string]string
	uns  map[string]string // "" = deleted
	bal  map[types.TokenTypeId]int64
	logs []string
	code string
	meta map[types.Address]*ledger.ContractMeta
}

func (m *model) value(k string) string {
	if v, ok := m.uns[k]; ok {
		return v
	}
	return m.base[k]
}

func (m *model) view(prefix string) [][2]string {
	all := map[string]string{}
	for k, v := range m.base {
		all[k] = v
	}
	for k, v := range m.uns {
		if v == "" {
			delete(all, k)
		} else {
			all[k] = v
		}
	}
	var out [][2]string
	for k, v := range all {
		if strings.HasPrefix(k, prefix) {
			out = append(out, [2]string{k, v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func world(m *model) *vmkit.World {
	vmkit.Init(nil)
	w := vmkit.New()
	w.SetCode(self, []byte{0xaa})
	x := w.Mut(self)
	for k, v := range m.base {
		x.Stor[k] = []byte(v)
	}
	w.SetBal(self, toks[0], big.NewInt(500))
	return w
}

func drain(it interfaces.StorageIterator, step func() bool, first bool, ok bool) [][2]string {
	var out [][2]string
	if !first {
		ok = step()
	}
	for ok {
		out = append(out, [2]string{string(it.Key()), string(it.Value())})
		if len(out) > 50 {
			return append(out, [2]string{"endless", ""})
		}
		ok = step()
	}
	return out
}

func check(c *C, m *model, w *vmkit.World, db interfaces.VmDb, keys []string, finished bool) {
	c.State()
	var want [][2]string
	for k, v := range m.uns {
		want = append(want, [2]string{k, v})
	}
	sort.Slice(want, func(i, j int) bool { return want[i][0] < want[j][0] })
	var src []byte
	for _, kv := range want {
		src = append(append(src, kv[0]...), kv[1]...)
	}
	var got [][2]string
	for _, kv := range db.GetUnsavedStorage() {
		got = append(got, [2]string{string(kv[0]), string(kv[1])})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fail("V07/unsaved", "writes to save are %q, expected %q", got, want)
	}
	rh := [32]byte{}
	if len(want) > 0 {
		rh = blake2b.Sum256(src)
	}
	if h := db.GetReceiptHash(); !bytes.Equal(h.Bytes(), rh[:]) {
		c.Fail("V07/receipt", "receipt hash %v, expected %x", h, rh)
	}
	ub := db.GetUnsavedBalanceMap()
	if len(ub) != len(m.bal) {
		c.Fail("V07/balance-map", "%d changed balances, expected %d", len(ub), len(m.bal))
	}
	for t, v := range m.bal {
		if ub[t] == nil || ub[t].Int64() != v {
			c.Fail("V07/balance-map", "changed balance %v, expected %d", ub[t], v)
		}
	}
	ll := db.GetLogList()
	if len(ll) != len(m.logs) {
		c.Fail("V07/logs", "%d events, expected %d", len(ll), len(m.logs))
	}
	var lsrc []byte
	for i, l := range m.logs {
		if string(ll[i].Data) != l {
			c.Fail("V07/logs", "event %d is %q, expected %q", i, ll[i].Data, l)
		}
		lsrc = append(append(lsrc, bytes.Repeat([]byte{7}, 32)...), l...)
	}
	lsrc = append(append(lsrc, self.Bytes()...), make([]byte, 32)...)
	lh := db.GetLogListHash()
	if len(m.logs) == 0 {
		if lh != nil {
			c.Fail("V07/log-hash", "log hash without events")
		}
	} else if h := blake2b.Sum256(lsrc); lh == nil || !bytes.Equal(lh.Bytes(), h[:]) {
		c.Fail("V07/log-hash", "log hash %v, expected %x", lh, h)
	}
	if string(db.GetUnsavedContractCode()) != m.code {
		c.Fail("V07/code", "code to save %x, expected %x", db.GetUnsavedContractCode(), m.code)
	}
	um := db.GetUnsavedContractMeta()
	if len(um) != len(m.meta) {
		c.Fail("V07/meta", "%d metas to save, expected %d", len(um), len(m.meta))
	}
	for a, x := range m.meta {
		if um[a] != x {
			c.Fail("V07/meta", "meta to save differs")
		}
	}
	if finished {
		return
	}
	for _, k := range keys {
		v, err := db.GetValue([]byte(k))
		if err != nil || string(v) != m.value(k) {
			c.Fail("V07/value", "value of %x is %q (%v), expected %q", k, v, err, m.value(k))
		}
		v, err = db.GetOriginalValue([]byte(k))
		if err != nil || string(v) != m.base[k] {
			c.Fail("V07/original", "original value of %x is %q, expected %q", k, v, m.base[k])
		}
	}
	for i, t := range toks {
		b, err := db.GetBalance(&toks[i])
		wantB := w.Bal(self, t)
		if v, ok := m.bal[t]; ok {
			wantB = big.NewInt(v)
		}
		if err != nil || b.Cmp(wantB) != 0 {
			c.Fail("V07/balance", "balance %v, expected %v", b, wantB)
		}
		b.Add(b, big.NewInt(1)) // the caller owns the result
		if b2, _ := db.GetBalance(&toks[i]); b2.Cmp(wantB) != 0 {
			c.Fail("V07/balance-alias", "changing a returned balance changed the account")
		}
	}
	code, err := db.GetContractCode()
	wc := m.code
	if wc == "" {
		wc = "\x01\xaa"
	}
	if err != nil || string(code) != wc {
		c.Fail("V07/code", "code %x, expected %x", code, wc)
	}
	for _, p := range []string{"", "a", "ab", "b", "\xff", "c"} {
		view := m.view(p)
		mk := func() interfaces.StorageIterator {
			it, err := db.NewStorageIterator([]byte(p))
			if err != nil {
				c.Fail("V07/iter", "iterator: %v", err)
			}
			return it
		}
		it := mk()
		if g := drain(it, it.Next, false, false); fmt.Sprint(g) != fmt.Sprint(view) {
			c.Fail("V07/iter-next", "prefix %x iterates %q, expected %q", p, g, view)
		}
		it.Release()
		it = mk()
		g := drain(it, it.Prev, true, it.Last())
		rev := append([][2]string{}, view...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		if fmt.Sprint(g) != fmt.Sprint(rev) {
			c.Fail("V07/iter-prev", "prefix %x backwards iterates %q, expected %q", p, g, rev)
		}
		it.Release()
		if p == "" || p == "a" {
			for _, k := range append([]string{"aa", "az", "zz", "\xff\xff"}, keys...) {
				if !strings.HasPrefix(k, p) {
					continue
				}
				it = mk()
				g := drain(it, it.Next, true, it.Seek([]byte(k)))
				var ws [][2]string
				for _, kv := range view {
					if kv[0] >= k {
						ws = append(ws, kv)
					}
				}
				if fmt.Sprint(g) != fmt.Sprint(ws) {
					c.Fail("V07/iter-seek", "prefix %x from %x iterates %q, expected %q", p, k, g, ws)
				}
				it.Release()
			}
		}
	}
}

func scenario(name string, depth int, keys []string, vals []string, extra bool) Scenario {
	return Scenario{Name: name, Bound: fmt.Sprintf("every sequence of %d writes, clears and resets over %d keys", depth, len(keys)), Body: func(c *C) {
		m := &model{base: map[string]string{}, uns: map[string]string{}, bal: map[types.TokenTypeId]int64{}, meta: map[types.Address]*ledger.ContractMeta{}}
		nb := c.Choose(3)
		for i, k := range keys {
			if nb == 2 || (nb == 1 && i%2 == 0) {
				m.base[k] = "base" + k
			}
		}
		w := world(m)
		db := w.NewDb(self)
		metas := []*ledger.ContractMeta{{QuotaRatio: 10}, {QuotaRatio: 20}}
		if c.Fresh() {
			check(c, m, w, db, keys, false)
		}
		nk := len(keys) * len(vals)
		for i := 0; i < depth; i++ {
			n := nk + 1
			if extra {
				n += 6
			}
			o := c.Choose(n)
			switch {
			case o < nk:
				k, v := keys[o/len(vals)], vals[o%len(vals)]
				c.Op("set %x=%q", k, v)
				kb, vb := []byte(k), []byte(v)
				if err := db.SetValue(kb, vb); err != nil {
					c.Fail("V07/set", "%v", err)
				}
				for j := range kb {
					kb[j] = '?'
				}
				m.uns[k] = v
			case o == nk:
				c.Op("reset")
				db.Reset()
				m.uns, m.bal, m.logs, m.code, m.meta = map[string]string{}, map[types.TokenTypeId]int64{}, nil, "", map[types.Address]*ledger.ContractMeta{}
			case o == nk+1 || o == nk+2:
				t := toks[o-nk-1]
				c.Op("balance")
				b, _ := db.GetBalance(&t)
				b.Add(b, big.NewInt(int64(i+1)))
				db.SetBalance(&t, b)
				m.bal[t] = b.Int64()
			case o == nk+3:
				c.Op("event")
				h, _ := types.BytesToHash(bytes.Repeat([]byte{7}, 32))
				d := fmt.Sprintf("event%d", i)
				db.AddLog(&ledger.VmLog{Topics: []types.Hash{h}, Data: []byte(d)})
				m.logs = append(m.logs, d)
			case o == nk+4:
				c.Op("code")
				m.code = fmt.Sprintf("code%d", i)
				db.SetContractCode([]byte(m.code))
			case o == nk+5 || o == nk+6:
				a := []types.Address{self, other}[o-nk-5]
				c.Op("meta")
				db.SetContractMeta(a, metas[i%2])
				m.meta[a] = metas[i%2]
			}
			if c.Fresh() {
				check(c, m, w, db, keys, false)
			}
		}
		db.Finish()
		check(c, m, w, db, keys, true)
	}}
}

func main() {
	Main(Suite{Property: "V07", Scenarios: func(tier string) []Scenario {
		d := 0
		if tier == "thorough" {
			d = 1
		}
		return []Scenario{
			scenario("mixed", 4+d, []string{"a", "ab", "b", "\xff"}, []string{"", "x", "yy"}, true),
			scenario("storage", 6+d, []string{"a", "ab", "b"}, []string{"", "x"}, false),
			Asked(scenario("mixed", 3+d, []string{"a", "ab", "b", "\xff"}, []string{"", "x", "yy"}, true)),
			Asked(scenario("storage", 5+d, []string{"a", "ab", "b"}, []string{"", "x"}, false)),
			{Name: "long-keys", Bound: "keys of 0 to 33 bytes", Body: func(c *C) {
				n := c.Choose(34)
				m := &model{base: map[string]string{}}
				w := world(m)
				db := w.NewDb(self)
				k := bytes.Repeat([]byte{9}, n)
				err := db.SetValue(k, []byte("v"))
				c.Op("key of %d bytes", n)
				c.State()
				if (err == nil) != (n <= 32) {
					c.Fail("V07/key-length", "key of %d bytes: %v", n, err)
				}
				v, _ := db.GetValue(k)
				if n <= 32 && string(v) != "v" || n > 32 && len(v) != 0 {
					c.Fail("V07/key-length", "key of %d bytes reads %q", n, v)
				}
			}},
		}
	}, Assumptions: []string{"iterators are used in one direction after positioning, as every caller does", "storage keys are not empty"}})
}
