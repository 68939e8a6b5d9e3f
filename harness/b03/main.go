// Property B03: identifiers, numbers and bytes keep their value through their text forms, and nothing else is accepted.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common"
	"github.com/vitelabs/go-vite/v2/common/hexutil"
	vmath "github.com/vitelabs/go-vite/v2/common/math"
	"github.com/vitelabs/go-vite/v2/common/types"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

func blake(n int, d ...[]byte) []byte {
	h, _ := blake2b.New(n, nil)
	for _, x := range d {
		h.Write(x)
	}
	return h.Sum(nil)
}

// id is one kind of identifier: its text form by its published definition, and the real codec.
type id struct {
	name   string
	size   int
	text   func(b []byte) string
	format func(b []byte) []string        // every real formatter
	parse  func(s string) ([]byte, error) // the real parser
	json   func(s []byte) ([]byte, error) // the real JSON decoder
	enc    func(b []byte) ([]byte, error) // the real JSON encoder
	raw    func(b []byte) ([]byte, error) // the real byte decoder
	big    func(n *big.Int) ([]byte, error)
	bigErr bool // too large a number is refused
	valid  func(s string) bool
}

func inv(b []byte) []byte {
	r := append([]byte{}, b...)
	for i := range r {
		r[i] = ^r[i]
	}
	return r
}

var ids = []id{
	{name: "address", size: 21, text: func(b []byte) string {
		sum := blake(5, b[:20])
		if b[20] == 1 {
			sum = inv(sum)
		}
		return "vite_" + hex.EncodeToString(b[:20]) + hex.EncodeToString(sum)
	}, format: func(b []byte) []string {
		a, _ := types.BytesToAddress(b)
		t, _ := a.MarshalText()
		return []string{a.Hex(), a.String(), string(t), fmt.Sprint(a)}
	}, parse: func(s string) ([]byte, error) {
		a, err := types.HexToAddress(s)
		if b, err2 := types.ValidHexAddress(s); a != b || (err == nil) != (err2 == nil) {
			return nil, fmt.Errorf("two readings of one address")
		}
		return a.Bytes(), err
	}, json: func(s []byte) ([]byte, error) {
		var a types.Address
		err := json.Unmarshal(s, &a)
		return a.Bytes(), err
	}, enc: func(b []byte) ([]byte, error) {
		a, _ := types.BytesToAddress(b)
		return json.Marshal(a)
	}, raw: func(b []byte) ([]byte, error) {
		a, err := types.BytesToAddress(b)
		return a.Bytes(), err
	}, big: func(n *big.Int) ([]byte, error) {
		a, err := types.BigToAddress(n)
		return a.Bytes(), err
	}, valid: types.IsValidHexAddress},
	{name: "token", size: 10, text: func(b []byte) string {
		return "tti_" + hex.EncodeToString(b) + hex.EncodeToString(blake(2, b))
	}, format: func(b []byte) []string {
		a, _ := types.BytesToTokenTypeId(b)
		t, _ := a.MarshalText()
		return []string{a.Hex(), a.String(), string(t), fmt.Sprint(a)}
	}, parse: func(s string) ([]byte, error) {
		a, err := types.HexToTokenTypeId(s)
		return a.Bytes(), err
	}, json: func(s []byte) ([]byte, error) {
		var a types.TokenTypeId
		err := json.Unmarshal(s, &a)
		return a.Bytes(), err
	}, enc: func(b []byte) ([]byte, error) {
		a, _ := types.BytesToTokenTypeId(b)
		return json.Marshal(a)
	}, raw: func(b []byte) ([]byte, error) {
		a, err := types.BytesToTokenTypeId(b)
		return a.Bytes(), err
	}, big: func(n *big.Int) ([]byte, error) {
		a, err := types.BigToTokenTypeId(n)
		return a.Bytes(), err
	}, valid: types.IsValidHexTokenTypeId},
	{name: "group", size: 10, text: hex.EncodeToString, format: func(b []byte) []string {
		a, _ := types.BytesToGid(b)
		t, _ := a.MarshalText()
		return []string{a.Hex(), a.String(), string(t), fmt.Sprint(a)}
	}, parse: func(s string) ([]byte, error) {
		a, err := types.HexToGid(s)
		return a.Bytes(), err
	}, json: func(s []byte) ([]byte, error) {
		var a types.Gid
		err := json.Unmarshal(s, &a)
		return a.Bytes(), err
	}, enc: func(b []byte) ([]byte, error) {
		a, _ := types.BytesToGid(b)
		return json.Marshal(a)
	}, raw: func(b []byte) ([]byte, error) {
		a, err := types.BytesToGid(b)
		return a.Bytes(), err
	}, big: func(n *big.Int) ([]byte, error) {
		a, err := types.BigToGid(n)
		return a.Bytes(), err
	}},
	{name: "hash", size: 32, text: hex.EncodeToString, format: func(b []byte) []string {
		a, _ := types.BytesToHash(b)
		t, _ := a.MarshalText()
		return []string{a.Hex(), a.String(), string(t), fmt.Sprint(a)}
	}, parse: func(s string) ([]byte, error) {
		a, err := types.HexToHash(s)
		return a.Bytes(), err
	}, json: func(s []byte) ([]byte, error) {
		var a types.Hash
		err := json.Unmarshal(s, &a)
		return a.Bytes(), err
	}, enc: func(b []byte) ([]byte, error) {
		a, _ := types.BytesToHash(b)
		return json.Marshal(a)
	}, raw: func(b []byte) ([]byte, error) {
		a, err := types.BytesToHash(b)
		return a.Bytes(), err
	}, big: func(n *big.Int) ([]byte, error) {
		a, err := types.BigToHash(n)
		return a.Bytes(), err
	}},
}

// value is the k-th test value of an identifier: zero, ones, single bits, small numbers, then hashed.
func value(x id, k int) []byte {
	b := make([]byte, x.size)
	n := 8 * x.size
	core := b
	if x.name == "address" {
		core = b[:20]
		n = 160
	}
	switch {
	case k == 0:
	case k == 1:
		for i := range core {
			core[i] = 0xff
		}
	case k < n+2:
		core[(k-2)/8] = 1 << uint((k-2)%8)
	case k < n+2+300:
		j := k - n - 2
		core[len(core)-1] = byte(j)
		core[len(core)-2] = byte(j >> 8)
	default:
		copy(core, blake(len(core), []byte(fmt.Sprint(k))))
	}
	return b
}

func main() {
	Main(Suite{Property: "B03", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		n := 800
		subst := 24
		if tier != "quick" {
			n, subst = 20000, 400
		}
		return []Scenario{
			{Name: "roundtrip", Bound: fmt.Sprintf("%d values of each identifier (both kinds of address): text, JSON, byte and number forms", n), Body: func(c *C) {
				x := ids[c.Choose(len(ids))]
				part := c.Choose(8)
				seen := map[string]bool{}
				for k := part; k < n; k += 8 {
					kinds := 1
					if x.name == "address" {
						kinds = 2
					}
					for kind := 0; kind < kinds; kind++ {
						b := value(x, k)
						if kind == 1 {
							b[20] = 1
						}
						want := x.text(b)
						for _, got := range x.format(b) {
							if got != want {
								c.Fail("B03/format", "%s %x is written %q, expected %q", x.name, b, got, want)
							}
						}
						if seen[want] && k < 300 {
							c.Fail("B03/format-collision", "two values of %s are written %q", x.name, want)
						}
						seen[want] = true
						i := 0
						if p := strings.Index(want, "_"); p > 0 {
							i = p + 1
						}
						for _, s := range []string{want, want[:i] + strings.ToUpper(want[i:])} {
							if got, err := x.parse(s); err != nil || !bytes.Equal(got, b) {
								c.Fail("B03/parse", "%s %q is read as %x (%v), expected %x", x.name, s, got, err, b)
							}
							if x.valid != nil && !x.valid(s) {
								c.Fail("B03/valid", "%s %q is called invalid", x.name, s)
							}
							if got, err := x.json([]byte(`"` + s + `"`)); err != nil || !bytes.Equal(got, b) {
								c.Fail("B03/json", "%s %q in JSON is read as %x (%v)", x.name, s, got, err)
							}
						}
						if got, err := x.enc(b); err != nil || string(got) != `"`+want+`"` {
							c.Fail("B03/json", "%s %x in JSON is %s (%v)", x.name, b, got, err)
						}
						if got, err := x.raw(b); err != nil || !bytes.Equal(got, b) {
							c.Fail("B03/bytes", "%s %x from bytes is %x (%v)", x.name, b, got, err)
						}
						if got, err := x.big(new(big.Int).SetBytes(b)); err != nil || !bytes.Equal(got, b) {
							c.Fail("B03/number", "%s %x from its number is %x (%v)", x.name, b, got, err)
						}
						c.AddStates(1)
					}
				}
				h, _ := types.BytesToHash(value(ids[3], part))
				if h.Big().Cmp(new(big.Int).SetBytes(h[:])) != 0 || h.IsZero() != bytes.Equal(h[:], make([]byte, 32)) {
					c.Fail("B03/number", "number of hash %x is %s", h[:], h.Big())
				}
			}},
			{Name: "substitute", Bound: fmt.Sprintf("every single-character change (all 256 bytes, every position), every swap of two neighbours, every length: %d texts of each identifier; nothing but the value itself is read", subst), Body: func(c *C) {
				x := ids[c.Choose(len(ids))]
				k := c.Choose(subst)
				b := value(x, k*31%700)
				if x.name == "address" {
					b[20] = byte(k & 1)
				}
				s := x.text(b)
				try := func(t string) {
					c.AddStates(1)
					got, err := x.parse(t)
					if x.valid != nil && x.valid(t) != (err == nil) {
						c.Fail("B03/valid", "%s %q: valid %v, read error %v", x.name, t, x.valid(t), err)
					}
					ok := false
					var want []byte
					switch x.name {
					case "address", "token":
						p := strings.Index(s, "_") + 1
						if len(t) == len(s) && t[:p] == s[:p] {
							if d, e := hex.DecodeString(t[p:]); e == nil {
								if x.name == "token" {
									want, ok = d[:10], bytes.Equal(blake(2, d[:10]), d[10:])
								} else {
									sum := blake(5, d[:20])
									want = append(append([]byte{}, d[:20]...), 0)
									ok = bytes.Equal(sum, d[20:])
									if bytes.Equal(inv(sum), d[20:]) {
										want[20], ok = 1, true
									}
								}
							}
						}
					default:
						d, e := hex.DecodeString(t)
						ok, want = e == nil && len(d) == x.size, d
					}
					if ok != (err == nil) || ok && !bytes.Equal(got, want) {
						c.Fail("B03/substitute", "%s text %q (from %q) is read as %x (%v)", x.name, t, s, got, err)
					}
					if !ok && !bytes.Equal(got, make([]byte, x.size)) {
						c.Fail("B03/substitute", "%s text %q is refused and yet gives %x", x.name, t, got)
					}
					q, _ := json.Marshal(t)
					if d, err := x.json(q); len(t) > 0 && t[0] != '"' && t[len(t)-1] != '"' && !bytes.ContainsAny(q[1:len(q)-1], "\\") && (err == nil) != ok || err == nil && !bytes.Equal(d, want) {
						c.Fail("B03/substitute-json", "%s JSON %s is read as %x (%v)", x.name, q, d, err)
					}
				}
				for i := 0; i < len(s); i++ {
					for ch := 0; ch < 256; ch++ {
						if byte(ch) != s[i] {
							try(s[:i] + string([]byte{byte(ch)}) + s[i+1:])
						}
					}
					if i+1 < len(s) && s[i] != s[i+1] {
						try(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
					}
					try(s[:i])
					try(s[:i] + s[i+1:])
					try(s[:i] + "0" + s[i:])
					try(s + s[:i])
				}
				for _, j := range []string{"1", "null1", "true", "{}", "[]", `""`, `"`, "", `"x`, `x"`} {
					if got, err := x.json([]byte(j)); err == nil {
						c.Fail("B03/json-type", "%s JSON %s is read as %x", x.name, j, got)
					}
				}
			}},
			{Name: "lengths", Bound: "every byte length 0 to 70 and numbers of 0 to 300 bits", Body: func(c *C) {
				x := ids[c.Choose(len(ids))]
				for l := 0; l <= 70; l++ {
					d := bytes.Repeat([]byte{7}, l)
					got, err := x.raw(d)
					if (err == nil) != (l == x.size) || err == nil && !bytes.Equal(got, d) || err != nil && !bytes.Equal(got, make([]byte, x.size)) {
						c.Fail("B03/length", "%s of %d bytes gives %x (%v)", x.name, l, got, err)
					}
					c.AddStates(1)
				}
				for bits := uint(0); bits <= 300; bits++ {
					v := new(big.Int).Lsh(big.NewInt(1), bits)
					got, err := x.big(v)
					fits := v.BitLen() <= 8*x.size
					if (err == nil) != fits || fits && new(big.Int).SetBytes(got).Cmp(v) != 0 {
						c.Fail("B03/number", "%s from 2^%d gives %x (%v)", x.name, bits, got, err)
					}
				}
			}},
			{Name: "derive", Bound: "addresses, contract addresses, token and group identifiers derived from 0 to 3 parts of 0 to 40 bytes", Body: func(c *C) {
				l := c.Choose(41)
				d := make([]byte, l)
				for i := range d {
					d[i] = byte(i*3 + l)
				}
				for i := 0; i <= l; i++ {
					for j := i; j <= l; j++ {
						p := [][]byte{d[:i], d[i:j], d[j:]}
						a := types.CreateContractAddress(p...)
						t := types.CreateTokenTypeId(p...)
						g := types.DataToGid(p...)
						if !bytes.Equal(a[:], append(blake(20, d), 1)) || !types.IsContractAddr(a) || !bytes.Equal(t[:], blake(10, d)) || !bytes.Equal(g[:], blake(10, d)) {
							c.Fail("B03/derive", "identifiers derived from %x are %x %x %x", d, a[:], t[:], g[:])
						}
						c.AddStates(1)
					}
				}
				a := types.PubkeyToAddress(d)
				if !bytes.Equal(a[:], append(blake(20, d), 0)) || types.IsContractAddr(a) {
					c.Fail("B03/derive", "the address of key %x is %x", d, a[:])
				}
				u, e1 := types.GenUserAddress(d)
				k, e2 := types.GenContractAddress(d)
				if (e1 == nil) != (l == 20) || (e2 == nil) != (l == 20) || l == 20 && (!bytes.Equal(u[:], append(append([]byte{}, d...), 0)) || !bytes.Equal(k[:], append(append([]byte{}, d...), 1))) {
					c.Fail("B03/derive", "addresses of core %x are %x %x (%v %v)", d, u[:], k[:], e1, e2)
				}
			}},
			{Name: "builtin", Bound: "every address with at most two non-zero bytes among the last three and every kind byte", Body: func(c *C) {
				kind := c.Choose(256)
				set := func(l []types.Address, want ...byte) {
					if len(l) != len(want) {
						c.Fail("B03/builtin", "list of built-in contracts %v", l)
					}
					for i, a := range l {
						b := make([]byte, 21)
						b[19], b[20] = want[i], 1
						if !bytes.Equal(a[:], b) {
							c.Fail("B03/builtin", "built-in contract %x", a[:])
						}
					}
				}
				set(types.BuiltinContracts, 3, 4, 5, 6, 7)
				set(types.BuiltinContractsWithoutQuota, 3, 4, 5, 7)
				set(types.BuiltinContractsWithSendConfirm, 3, 4, 5)
				for pos := 0; pos < 20; pos++ {
					for v := 0; v < 256; v++ {
						for _, last := range []byte{0, 1, 3, 6, 255} {
							var a types.Address
							a[19] = last
							a[pos] = byte(v)
							a[20] = byte(kind)
							zero := true
							for _, x := range a[:19] {
								zero = zero && x == 0
							}
							n := a[19]
							contract := kind == 1
							b := contract && zero && n != 0
							u := contract && zero && n >= 3 && n <= 7
							if types.IsContractAddr(a) != contract || types.IsBuiltinContractAddr(a) != b || types.IsBuiltinContractAddrInUse(a) != u || types.IsBuiltinContractAddrInUseWithoutQuota(a) != (u && n != 6) || types.IsBuiltinContractAddrInUseWithSendConfirm(a) != (u && n <= 5) || a.IsZero() != (a == types.Address{}) {
								c.Fail("B03/builtin", "classification of address %x", a[:])
							}
							c.AddStates(1)
						}
					}
				}
			}},
			{Name: "order", Bound: "every pair of 64 addresses and hashes: comparison is the order of the bytes", Body: func(c *C) {
				for i := 0; i < 64; i++ {
					for j := 0; j < 64; j++ {
						a, _ := types.BytesToAddress(value(ids[0], i*5))
						b, _ := types.BytesToAddress(value(ids[0], j*5))
						x, _ := types.BytesToHash(value(ids[3], i*5))
						y, _ := types.BytesToHash(value(ids[3], j*5))
						if a.Compare(b) != bytes.Compare(a[:], b[:]) || x.Cmp(y) != bytes.Compare(x[:], y[:]) {
							c.Fail("B03/order", "comparison of %x and %x", a, b)
						}
						c.AddStates(1)
					}
				}
				m := map[types.Address]map[types.TokenTypeId]map[types.Hash]types.Gid{}
				for i := 0; i < 40; i++ {
					a, _ := types.BytesToAddress(value(ids[0], i*9))
					t, _ := types.BytesToTokenTypeId(value(ids[1], i*3))
					h, _ := types.BytesToHash(value(ids[3], i))
					g, _ := types.BytesToGid(value(ids[2], i))
					m[a] = map[types.TokenTypeId]map[types.Hash]types.Gid{t: {h: g}}
				}
				for _, mm := range m {
					for t := range mm {
						delete(mm, t)
						mm[t] = nil
					}
				}
				b, err := json.Marshal(m)
				var d map[types.Address]map[types.TokenTypeId]map[types.Hash]types.Gid
				if err == nil {
					err = json.Unmarshal(b, &d)
				}
				if err != nil || !reflect.DeepEqual(m, d) {
					c.Fail("B03/json-map", "a map by address and token does not survive JSON: %v", err)
				}
			}},
			{Name: "hex", Bound: "every string of up to 4 characters over {0 1 9 a f A F g x X - _ \" space}, behind each prefix; every bit width; every byte value at every place", Body: func(c *C) {
				alpha := `019afAFgxX-_" `
				pre := []string{"", "0x", "0X", "x", "00"}[c.Choose(5)]
				first := c.Choose(len(alpha) + 1)
				var rec func(s string, left int)
				rec = func(s string, left int) {
					numbers(c, s)
					if left == 0 {
						return
					}
					for i := 0; i < len(alpha); i++ {
						rec(s+alpha[i:i+1], left-1)
					}
				}
				if first == len(alpha) {
					numbers(c, pre)
					for bits := uint(0); bits <= 270; bits++ {
						for d := int64(-1); d <= 1; d++ {
							v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(d))
							numbers(c, pre+v.Text(16))
							numbers(c, v.Text(10))
						}
					}
					return
				}
				depth := 2
				if tier != "quick" {
					depth = 4
				}
				rec(pre+alpha[first:first+1], depth)
			}},
			{Name: "hex-bytes", Bound: "0 to 80 bytes to hex and back", Body: func(c *C) {
				l := c.Choose(81)
				b := make([]byte, l)
				for i := range b {
					b[i] = byte(i*37 + l)
				}
				want := "0x" + hex.EncodeToString(b)
				t, _ := hexutil.Bytes(b).MarshalText()
				js, _ := json.Marshal(hexutil.Bytes(b))
				var d hexutil.Bytes
				err := json.Unmarshal(js, &d)
				if hexutil.Encode(b) != want || string(t) != want || hexutil.Bytes(b).String() != want || string(js) != `"`+want+`"` || err != nil || !bytes.Equal(d, b) {
					c.Fail("B03/hex-bytes", "%x is written %s %s (%v)", b, t, js, err)
				}
				if common.Bytes2Hex(b) != want[2:] || !bytes.Equal(common.FromHex(want), b) || !bytes.Equal(common.FromHex(want[2:]), b) || !bytes.Equal(common.Hex2Bytes(want[2:]), b) {
					c.Fail("B03/hex-bytes", "%x through the helpers", b)
				}
				if l > 0 && common.ToHex(b) != want {
					c.Fail("B03/hex-bytes", "%x through the helpers", b)
				}
				for n := 0; n <= 80; n++ {
					out := make([]byte, n)
					e1 := hexutil.UnmarshalFixedText("t", []byte(want), out)
					if (e1 == nil) != (n == l) || n == l && !bytes.Equal(out, b) {
						c.Fail("B03/hex-fixed", "%d bytes into %d: %x (%v)", l, n, out, e1)
					}
					e1 = hexutil.UnmarshalFixedUnprefixedText("t", []byte(want[2:]), out)
					if (e1 == nil) != (n == l) {
						c.Fail("B03/hex-fixed", "%d bytes into %d: %x (%v)", l, n, out, e1)
					}
					f := common.Hex2BytesFixed(want[2:], n)
					w := append(make([]byte, 80), b...)
					if !bytes.Equal(f, w[len(w)-n:]) {
						c.Fail("B03/hex-fixed", "%d bytes fixed to %d: %x", l, n, f)
					}
					if lp, rp := common.LeftPadBytes(b, n), common.RightPadBytes(b, n); n <= l && (!bytes.Equal(lp, b) || !bytes.Equal(rp, b)) || n > l && (len(lp) != n || len(rp) != n || !bytes.Equal(lp[n-l:], b) || !bytes.Equal(rp[:l], b) || !bytes.Equal(lp[:n-l], make([]byte, n-l)) || !bytes.Equal(rp[l:], make([]byte, n-l))) {
						c.Fail("B03/pad", "%d bytes padded to %d: %x %x", l, n, lp, rp)
					}
					c.AddStates(1)
				}
				for i := 0; i < len(want); i++ { // one bad character at every place
					for _, ch := range "g\x00/:@G`z" {
						s := want[:i] + string(ch) + want[i+1:]
						if i == 1 && (ch == 'x' || ch == 'X') {
							continue
						}
						out := bytes.Repeat([]byte{9}, l)
						_, e1 := hexutil.Decode(s)
						e2 := hexutil.UnmarshalFixedText("t", []byte(s), out)
						var d hexutil.Bytes
						e3 := d.UnmarshalText([]byte(s))
						if e1 == nil || e2 == nil || e3 == nil || !bytes.Equal(out, bytes.Repeat([]byte{9}, l)) || d != nil {
							c.Fail("B03/hex-bad", "%q is read (%v %v %v)", s, e1, e2, e3)
						}
						c.AddStates(1)
					}
				}
			}},
		}
	}})
}

// numbers compares every reader of numbers and bytes on one string with the published rules.
func numbers(c *C, s string) {
	c.AddStates(1)
	pre := len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
	digits := func(t string) bool {
		for _, ch := range []byte(t) {
			if !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F') {
				return false
			}
		}
		return true
	}
	var v *big.Int
	if pre && len(s) > 2 && digits(s[2:]) && (len(s) == 3 || s[2] != '0') {
		v, _ = new(big.Int).SetString(s[2:], 16)
	}
	is := func(what string, bits int, got *big.Int, err error, empty bool) {
		want := v
		if want != nil && want.BitLen() > bits {
			want = nil
		}
		if s == "" && empty {
			want = new(big.Int)
		}
		if (err == nil) != (want != nil) || want != nil && got.Cmp(want) != 0 {
			c.Fail("B03/hex-number", "%s reads %q as %v (%v), expected %v", what, s, got, err, want)
		}
		if want != nil && got.Sign() == 0 && len(got.Bits()) != 0 {
			c.Fail("B03/hex-number", "%s reads %q as a number that is not normalised", what, s)
		}
	}
	b, err := hexutil.DecodeBig(s)
	is("DecodeBig", 256, b, err, false)
	u, err := hexutil.DecodeUint64(s)
	is("DecodeUint64", 64, new(big.Int).SetUint64(u), err, false)
	var hb hexutil.Big
	err = hb.UnmarshalText([]byte(s))
	is("Big", 256, hb.ToInt(), err, true)
	var hu hexutil.Uint64
	err = hu.UnmarshalText([]byte(s))
	is("Uint64", 64, new(big.Int).SetUint64(uint64(hu)), err, true)
	var hi hexutil.Uint
	err = hi.UnmarshalText([]byte(s))
	is("Uint", 64, new(big.Int).SetUint64(uint64(hi)), err, true)
	if v != nil && v.BitLen() <= 256 {
		want := "0x" + v.Text(16)
		t, _ := hexutil.Big(*v).MarshalText()
		if hexutil.EncodeBig(v) != want || string(t) != want {
			c.Fail("B03/hex-number", "%s is written %s and %s", v, hexutil.EncodeBig(v), t)
		}
		if v.BitLen() <= 64 {
			n := v.Uint64()
			t, _ := hexutil.Uint64(n).MarshalText()
			t2, _ := hexutil.Uint(n).MarshalText()
			if hexutil.EncodeUint64(n) != want || string(t) != want || string(t2) != want || hexutil.Uint64(n).String() != want {
				c.Fail("B03/hex-number", "%d is written %s", n, t)
			}
		}
	}
	// bytes
	raw, err := hexutil.Decode(s)
	ok := pre && len(s)%2 == 0 && digits(s[2:])
	var want []byte
	if ok {
		want, _ = hex.DecodeString(s[2:])
	}
	if (err == nil) != ok || ok && !bytes.Equal(raw, want) {
		c.Fail("B03/hex-bytes", "%q is read as bytes %x (%v)", s, raw, err)
	}
	// decimal or hexadecimal
	var w *big.Int
	t := s
	base := 10
	if pre {
		t, base = s[2:], 16
	}
	if s == "" {
		w = new(big.Int)
	} else if t != "" && digits(t) {
		if x, good := new(big.Int).SetString(t, base); good {
			w = x
		}
	}
	u, good := vmath.ParseUint64(s)
	if fits := w != nil && w.BitLen() <= 64; good != fits || fits && u != w.Uint64() {
		c.Fail("B03/parse-number", "ParseUint64(%q) is %d, %v", s, u, good)
	}
	if !strings.ContainsAny(t, "-+_") { // signs and separators are left open
		b, good := vmath.ParseBig256(s)
		if fits := w != nil && w.BitLen() <= 256; good != fits || fits && b.Cmp(w) != 0 {
			c.Fail("B03/parse-number", "ParseBig256(%q) is %v, %v", s, b, good)
		}
	}
}
