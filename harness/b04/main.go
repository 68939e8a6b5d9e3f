// Property B04: the 256-bit and overflow-aware arithmetic shared by quota, VM and contracts is exact.
package main

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/helper"
	vmath "github.com/vitelabs/go-vite/v2/common/math"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

func u64s() (l []uint64) {
	for i := uint(0); i < 64; i++ {
		l = append(l, 1<<i-1, 1<<i, 1<<i+1)
	}
	l = append(l, 1<<64-1, 1<<64-2, 0xfffffffb, 3037000500, 6074001000)
	for i := uint64(0); i < 40; i++ {
		l = append(l, i, 1<<64-1-i, 1<<32-20+i)
	}
	return
}

func bigs(max uint) (l []*big.Int) {
	for i := uint(0); i <= max; i++ {
		x := new(big.Int).Lsh(big.NewInt(1), i)
		for d := int64(-1); d <= 1; d++ {
			l = append(l, new(big.Int).Add(x, big.NewInt(d)))
		}
		l = append(l, new(big.Int).Mul(x, big.NewInt(0xa5)))
	}
	return
}

func cp(n *big.Int) *big.Int { return new(big.Int).Set(n) }

func main() {
	two256 := new(big.Int).Lsh(big.NewInt(1), 256)
	mod := func(n *big.Int) *big.Int { return new(big.Int).Mod(n, two256) }
	Main(Suite{Property: "B04", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		return []Scenario{
			{Name: "uint64", Bound: "every pair of about 300 boundary values", Body: func(c *C) {
				l := u64s()
				x := l[c.Choose(len(l))]
				bx := new(big.Int).SetUint64(x)
				for _, y := range l {
					by := new(big.Int).SetUint64(y)
					s, m := new(big.Int).Add(bx, by), new(big.Int).Mul(bx, by)
					a, ao := helper.SafeAdd(x, y)
					b, bo := helper.SafeMul(x, y)
					d, do := vmath.SafeAdd(x, y)
					e, eo := vmath.SafeMul(x, y)
					f, fo := vmath.SafeSub(x, y)
					if ao != (s.BitLen() > 64) || do != ao || a != x+y || d != a || bo != (m.BitLen() > 64) || eo != bo || b != x*y || e != b || fo != (x < y) || f != x-y {
						c.Fail("B04/uint64", "arithmetic on %d and %d", x, y)
					}
					lo, hi := x, y
					if lo > hi {
						lo, hi = hi, lo
					}
					if helper.Min(x, y) != lo || helper.Max(x, y) != hi {
						c.Fail("B04/minmax", "minimum and maximum of %d and %d", x, y)
					}
					if i, j := int(x), int(y); helper.MinInt(i, j) > i || helper.MinInt(i, j) > j || helper.MinInt(i, j) != i && helper.MinInt(i, j) != j || helper.MinInt64(int64(x), int64(y)) != int64(helper.MinInt(i, j)) {
						c.Fail("B04/minmax", "minimum of %d and %d", i, j)
					}
					c.AddStates(1)
				}
				w := new(big.Int).Add(bx, big.NewInt(31))
				w.Rsh(w, 5)
				if helper.ToWordSize(x) != w.Uint64() {
					c.Fail("B04/words", "%d bytes take %d words, expected %s", x, helper.ToWordSize(x), w)
				}
				buf := make([]byte, 8)
				binary.BigEndian.PutUint64(buf, x)
				if helper.BytesToU64(buf) != x || helper.BytesToU64(append(buf, 7)) != x || helper.BytesToU64(buf[:7]) != 0 {
					c.Fail("B04/bytes", "reading %x", buf)
				}
			}},
			{Name: "big", Bound: "values around every power of two up to 2^320, every byte position, buffers of 0 to 40 bytes", Body: func(c *C) {
				l := bigs(320)
				v := l[c.Choose(len(l))]
				raw := v.Bytes()
				for n := 0; n <= 45; n++ {
					want := append(make([]byte, 60), raw...)
					w := want[len(want)-n:]
					for k, f := range []func(*big.Int, []byte){helper.ReadBits, vmath.ReadBits} {
						buf := make([]byte, n)
						f(v, buf)
						if !bytes.Equal(buf, w) {
							c.Fail("B04/read-bits", "reading %x into %d bytes gives %x (%d)", raw, n, buf, k)
						}
					}
					pw := w
					if len(raw) > n {
						pw = raw
					}
					if a, b := helper.PaddedBigBytes(v, n), vmath.PaddedBigBytes(v, n); v.BitLen() != 8*n && (!bytes.Equal(a, pw) || !bytes.Equal(b, pw)) || v.BitLen() == 8*n && !bytes.Equal(a, raw) {
						c.Fail("B04/padded", "%x padded to %d bytes is %x", raw, n, a)
					}
					for i := 0; i <= 45; i++ {
						wb := byte(0)
						if i < n {
							wb = want[len(want)-n+i]
						}
						if helper.Byte(v, n, i) != wb || vmath.Byte(v, n, i) != wb {
							c.Fail("B04/byte", "byte %d of %x padded to %d is %x", i, raw, n, helper.Byte(v, n, i))
						}
					}
					c.AddStates(1)
				}
				if helper.U256(cp(v)).Cmp(mod(v)) != 0 || vmath.U256(cp(v)).Cmp(mod(v)) != 0 || helper.U256(new(big.Int).Neg(v)).Cmp(mod(new(big.Int).Neg(v))) != 0 {
					c.Fail("B04/u256", "%s modulo 2^256", v)
				}
				if v.BitLen() <= 256 {
					w := cp(v)
					if v.Bit(255) == 1 {
						w.Sub(w, two256)
					}
					x := cp(v)
					if helper.S256(x).Cmp(w) != 0 || vmath.S256(x).Cmp(w) != 0 || x.Cmp(v) != 0 {
						c.Fail("B04/s256", "%s as a signed number", v)
					}
				}
				n, over := helper.BigUint64(v)
				if over != (v.BitLen() > 64) || !over && n != v.Uint64() {
					c.Fail("B04/big-uint64", "%s as uint64 is %d %v", v, n, over)
				}
				fb := 0
				for ; fb < v.BitLen() && v.Bit(fb) == 0; fb++ {
				}
				if vmath.FirstBitSet(v) != fb {
					c.Fail("B04/first-bit", "first bit of %s", v)
				}
				for _, y := range l {
					lo, hi := v, y
					if lo.Cmp(hi) > 0 {
						lo, hi = hi, lo
					}
					if helper.BigMin(v, y).Cmp(lo) != 0 || helper.BigMax(v, y).Cmp(hi) != 0 || vmath.BigMin(v, y).Cmp(lo) != 0 || vmath.BigMax(v, y).Cmp(hi) != 0 {
						c.Fail("B04/minmax", "minimum and maximum of %s and %s", v, y)
					}
				}
			}},
			{Name: "power", Bound: "every pair of about 60 bases and 60 exponents up to 256 bits", Body: func(c *C) {
				l := bigs(256)
				var s []*big.Int
				for i := 0; i < len(l); i += 17 {
					s = append(s, l[i])
				}
				for i := int64(0); i < 8; i++ {
					s = append(s, big.NewInt(i))
				}
				b := s[c.Choose(len(s))]
				for _, e := range s {
					want := new(big.Int).Exp(mod(b), e, two256)
					x := cp(e)
					if g := helper.Exp(cp(b), x); b.BitLen() <= 256 && g.Cmp(want) != 0 || x.Cmp(e) != 0 {
						c.Fail("B04/exp", "%s to the %s is %s, expected %s", b, e, g, want)
					}
					if g := vmath.Exp(cp(b), cp(e)); b.BitLen() <= 256 && g.Cmp(want) != 0 {
						c.Fail("B04/exp", "%s to the %s is %s, expected %s", b, e, g, want)
					}
					c.AddStates(1)
				}
				for i := int64(0); i < 20; i++ {
					for j := int64(0); j < 80; j++ {
						w := new(big.Int).Exp(big.NewInt(i), big.NewInt(j), nil)
						if helper.BigPow(i, j).Cmp(w) != 0 || vmath.BigPow(i, j).Cmp(w) != 0 {
							c.Fail("B04/pow", "%d to the %d", i, j)
						}
					}
				}
			}},
			{Name: "slices", Bound: "data of 0 to 70 bytes: every start and size to 80 and beyond 64 bits, every padding, joins, zero tests, strings", Body: func(c *C) {
				n := c.Choose(71)
				d := make([]byte, n)
				for i := range d {
					d[i] = byte(i + 1)
				}
				huge := new(big.Int).Lsh(big.NewInt(1), 200)
				for s := 0; s <= 81; s++ {
					bs := big.NewInt(int64(s))
					if s == 81 {
						bs = huge
					}
					for z := 0; z <= 80; z++ {
						want := make([]byte, z)
						if s < n {
							copy(want, d[s:])
						}
						if got := helper.GetDataBig(d, bs, big.NewInt(int64(z))); !bytes.Equal(got, want) {
							c.Fail("B04/data", "%d bytes from %s of %d bytes are %x", z, bs, n, got)
						}
						c.AddStates(1)
					}
				}
				for z := 0; z <= 80; z++ {
					lp, rp := helper.LeftPadBytes(d, z), helper.RightPadBytes(d, z)
					m := z
					if m < n {
						m = n
					}
					wl, wr := make([]byte, m), make([]byte, m)
					copy(wl[m-n:], d)
					copy(wr, d)
					if !bytes.Equal(lp, wl) || !bytes.Equal(rp, wr) {
						c.Fail("B04/pad", "%d bytes padded to %d: %x %x", n, z, lp, rp)
					}
				}
				inv := helper.LDI(d)
				for i := range d {
					if inv[i] != ^d[i] || d[i] != byte(i+1) {
						c.Fail("B04/complement", "complement of %x is %x", d, inv)
					}
				}
				rev := append([]byte{}, d...)
				helper.ReverseSlice(rev)
				for i := range d {
					if rev[i] != d[n-1-i] {
						c.Fail("B04/reverse", "reverse of %x is %x", d, rev)
					}
					zb := make([]byte, n)
					if !helper.AllZero(zb) {
						c.Fail("B04/zero", "zero bytes are not zero")
					}
					zb[i] = 0x80
					if helper.AllZero(zb) {
						c.Fail("B04/zero", "%x is called zero", zb)
					}
					e := append([]byte{}, d...)
					e[i] = 0
					if helper.BytesToString(e) != string(d[:i]) {
						c.Fail("B04/string", "%x as string is %q", e, helper.BytesToString(e))
					}
					if j := helper.JoinBytes(d[:i], d[i:], nil, d[:1]); !bytes.Equal(j, append(append([]byte{}, d...), d[0])) {
						c.Fail("B04/join", "joined bytes %x", j)
					}
				}
				if helper.BytesToString(d) != string(d) {
					c.Fail("B04/string", "%x as string is %q", d, helper.BytesToString(d))
				}
			}},
		}
	}})
}
