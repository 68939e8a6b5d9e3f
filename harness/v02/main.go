// Property V02: every contract program runs to one determined outcome within its quota.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/vm"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var bench *vmkit.Bench

func bn() *vmkit.Bench {
	if bench == nil {
		bench = vmkit.NewBench()
	}
	return bench
}

var big256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func tokens(b *vmkit.Bench) [][]byte {
	p := func(f func(a *vmkit.Asm)) []byte { a := &vmkit.Asm{}; f(a); return a.B }
	call := p(func(a *vmkit.Asm) {
		a.I(5).I(2).I(1).Push(new(big.Int).SetBytes(vmkit.Vite.Bytes())).Push(new(big.Int).SetBytes(b.Friend.Bytes())).Op(0xf1)
	})
	return [][]byte{
		{0x60, 0}, {0x60, 1}, {0x60, 0x20}, {0x60, 7}, p(func(a *vmkit.Asm) { a.Push(big256) }),
		{0x5b}, {0x56}, {0x57}, {0x80}, {0x81}, {0x90}, {0x91}, {0x50},
		{0x01}, {0x03}, {0x02}, {0x04}, {0x15}, {0x10}, {0x19},
		{0x51}, {0x52}, {0x53}, {0x54}, {0x55}, {0x35}, {0x37}, {0x39}, {0x58}, {0x59},
		{0x21}, {0xa1}, {0xf3}, {0xfd}, {0x61}, {0xfe}, call,
	}
}

// one runs a program, made observable, on both sides.
func one(c *C, b *vmkit.Bench, code []byte, quota uint64, observe bool, key string) {
	cs := vmkit.Case{Code: code, Data: []byte{0x11, 0x22, 0x33, 0x44, 0x55}, Token: vmkit.Vite, Amount: 2, Quota: quota, Store: map[string][]byte{vmkit.Key32(0): {9}}, Steps: 200000}
	if observe {
		p := ref.Run(b.Env(&cs))
		if p.Err == "" && !p.OutOfScope && len(p.Mem) < 512 {
			cs.Code = vmkit.Observe(code, len(p.Stack), len(p.Mem))
		}
	}
	o, d := b.Diff(&cs)
	c.AddStates(1)
	c.AddTransitions(o.Steps)
	if d != "" {
		c.Fail(key, "code %x quota %d: %s", cs.Code, quota, d)
	}
}

func main() {
	Main(Suite{Property: "V02", Scenarios: func(tier string) []Scenario {
		k := 4
		if tier == "thorough" {
			k = 5
		}
		pre := [][]byte{{}, {0x60, 3, 0x60, 0x20, 0x60, 0}}
		seqs := func(name string, pre []byte, k int) Scenario {
			return Scenario{Name: name, Bound: fmt.Sprintf("every program of up to %d tokens from an alphabet of 37", k), Body: func(c *C) {
				b := bn()
				tk := tokens(b)
				n := len(tk)
				i, j := c.Choose(n), c.Choose(n)
				head := append(append(append([]byte{}, pre...), tk[i]...), tk[j]...)
				c.Op("%x", head)
				total := 1
				for x := 2; x < k; x++ {
					total *= n
				}
				for l := 2; l <= k; l++ {
					cnt := 1
					for x := 2; x < l; x++ {
						cnt *= n
					}
					for x := 0; x < cnt; x++ {
						code := append([]byte{}, head...)
						for y, z := 2, x; y < l; y++ {
							code = append(code, tk[z%n]...)
							z /= n
						}
						one(c, b, code, vmkit.BaseCost+24000, true, "V02/program")
					}
				}
			}}
		}
		bytesN := 2
		if tier == "thorough" {
			bytesN = 3
		}
		scs := []Scenario{
			seqs("programs", pre[0], k),
			seqs("programs-with-stack", pre[1], k-1),
			{Name: "raw-bytes", Bound: fmt.Sprintf("every byte string of length up to %d as code, on four stacks", bytesN), Body: func(c *C) {
				b := bn()
				x := byte(c.Choose(256))
				c.Op("%02x", x)
				pres := [][]byte{{}, {0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0, 0x60, 0}, {0x60, 1, 0x60, 3, 0x60, 5, 0x60, 2, 0x60, 2, 0x60, 2}, {0x60, 32, 0x60, 64, 0x60, 1, 0x60, 0, 0x60, 0x40, 0x60, 0}}
				for _, p := range pres {
					one(c, b, append(append([]byte{}, p...), x), vmkit.BaseCost+24000, true, "V02/bytes")
					for y := 0; y < 256; y++ {
						code := append(append([]byte{}, p...), x, byte(y))
						one(c, b, code, vmkit.BaseCost+24000, true, "V02/bytes")
						if bytesN == 3 {
							for z := 0; z < 256; z++ {
								one(c, b, append(append([]byte{}, code...), byte(z)), vmkit.BaseCost+24000, false, "V02/bytes")
							}
						}
					}
				}
			}},
			{Name: "quota-limit", Bound: "every quota from zero to completion for 60 programs", Body: func(c *C) {
				b := bn()
				tk := tokens(b)
				loop := []byte{0x60, 20, 0x5b, 0x60, 1, 0x90, 0x03, 0x80, 0x60, 2, 0x57} // counts down
				store := (&vmkit.Asm{}).I(1).I(5).Op(0x55).I(0).I(5).Op(0x55).I(3).I(0).Op(0x55).I(0).I(0).Op(0x55).I(9).I(0).Op(0x55).B
				mem := (&vmkit.Asm{}).I(1).I(1000).Op(0x52).I(100).I(0).Op(0x21).I(7).I(40).I(0).Op(0xa1).B
				progs := [][]byte{loop, store, mem, append(append([]byte{}, mem...), loop...), append(append([]byte{}, tk[len(tk)-1]...), store...)}
				p := progs[c.Choose(len(progs))]
				c.Op("%x", p)
				cs := vmkit.Case{Code: p, Token: vmkit.Vite, Quota: 900000}
				full := ref.Run(b.Env(&cs))
				used := 900000 - full.QuotaLeft
				step := uint64(1)
				if used > 30000+vmkit.BaseCost {
					step = 7
				}
				for q := uint64(vmkit.BaseCost); q <= used+1; q += step {
					one(c, b, p, q, false, "V02/quota")
				}
				one(c, b, p, used, false, "V02/quota")
				one(c, b, p, used-1, false, "V02/quota")
			}},
			{Name: "call-input", Bound: "CALL and CALL2 on every combination of boundary offset, size and memory", Body: func(c *C) {
				b := bn()
				op := []byte{0xf1, 0xf2}[c.Choose(2)]
				ms := c.Choose(4)
				os := []*big.Int{}
				for _, n := range []int64{0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, 1000, 30000, 1 << 20} {
					os = append(os, big.NewInt(n))
				}
				pw := func(n uint, d int64) *big.Int {
					return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(d))
				}
				os = append(os, pw(31, 0), pw(39, 0), big.NewInt(0xffffffff00), pw(40, 0), pw(62, 0), pw(63, -1), pw(63, 0), pw(64, -1), pw(64, 0), pw(64, 1), pw(128, 0), big256)
				off := os[c.Choose(len(os))]
				c.Op("op %x mem %d off %v", op, ms, off)
				for _, n := range os {
					for _, to := range [][]byte{b.Friend.Bytes(), b.Other.Bytes(), b.Ghost.Bytes()} {
						for _, q := range []uint64{900000, 40000, 21100} {
							a := &vmkit.Asm{}
							for i := 0; i < ms; i++ {
								a.I(int64(i + 1)).I(int64(32 * i)).Op(0x52)
							}
							a.Push(n).Push(off).I(1).Push(new(big.Int).SetBytes(vmkit.Vite.Bytes())).Push(new(big.Int).SetBytes(to)).Op(op)
							if op == 0xf2 {
								a.I(0).Op(0x52).I(32).I(0).Op(0xa0)
							}
							cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Quota: q}
							r := b.Exec(&cs)
							c.AddStates(1)
							if r.Panic != nil {
								c.Fail("V02/panic", "code %x quota %d panicked: %v", a.B, q, r.Panic)
							}
							if op == 0xf1 {
								o := ref.Run(b.Env(&cs))
								if !o.OutOfScope {
									if d := b.Compare(&cs, o, r); d != "" {
										c.Fail("V02/call", "code %x quota %d: %s", a.B, q, d)
									}
								}
								continue
							}
							e := b.Env(&cs)
							e.CallHash = func(i int, _ *ref.Call) []byte {
								if r.Block == nil || i >= len(r.Block.SendBlockList) {
									return make([]byte, 32)
								}
								return r.Block.SendBlockList[i].Hash.Bytes()
							}
							o := ref.Run(e)
							if o.OutOfScope {
								c.Count("outside the reference", 1)
								if r.Block != nil && r.Block.QuotaUsed > q {
									c.Fail("V02/quota-used", "code %x quota %d used %d", a.B, q, r.Block.QuotaUsed)
								}
								continue
							}
							if d := b.Compare(&cs, o, r); d != "" {
								c.Fail("V02/call2", "code %x quota %d: %s", a.B, q, d)
							}
						}
					}
				}
			}},
			{Name: "sent-hash", Bound: "up to 3 messages per call with their hash taken by the program", Body: func(c *C) {
				b := bn()
				n := 1 + c.Choose(3)
				a := &vmkit.Asm{}
				a.Push(big256).I(0).Op(0x52)
				for i := 0; i < n; i++ {
					to := [][]byte{b.Friend.Bytes(), b.Other.Bytes(), b.Self.Bytes()}[c.Choose(3)]
					amt, sz := int64(c.Choose(2)), int64(4*c.Choose(2))
					a.I(sz).I(0).I(amt).Push(new(big.Int).SetBytes(vmkit.Vite.Bytes())).Push(new(big.Int).SetBytes(to)).Op(0xf2)
					a.I(64).Op(0x52).I(32).I(64).Op(0xa0)
				}
				c.Op("%x", a.B)
				cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Quota: 900000}
				r := b.Exec(&cs)
				e := b.Env(&cs)
				e.CallHash = func(i int, _ *ref.Call) []byte {
					if r.Block == nil || i >= len(r.Block.SendBlockList) {
						return make([]byte, 32)
					}
					return r.Block.SendBlockList[i].Hash.Bytes()
				}
				o := ref.Run(e)
				c.State()
				if d := b.Compare(&cs, o, r); d != "" {
					c.Fail("V02/sent-hash", "code %x: %s", a.B, d)
				}
			}},
			{Name: "queries", Bound: "every program of up to 3 tokens ending in RETURN, run as an off-chain query", Body: func(c *C) {
				b := bn()
				tk := tokens(b)
				// queries cannot write or send
				var t2 [][]byte
				for _, t := range tk {
					switch {
					case len(t) == 1 && (t[0] == 0x55 || t[0] == 0xa1 || t[0] == 0xfd):
					case len(t) > 40:
					default:
						t2 = append(t2, t)
					}
				}
				i, j := c.Choose(len(t2)), c.Choose(len(t2))
				c.Op("%d %d", i, j)
				for _, pre := range [][]byte{{}, {0x60, 3, 0x60, 0x20, 0x60, 0}} {
					for _, t := range t2 {
						code := append(append(append(append([]byte{}, pre...), t2[i]...), t2[j]...), t...)
						code = append(code, (&vmkit.Asm{}).I(64).Op(0x52).I(96).I(0).Op(0xf3).B...)
						cs := vmkit.Case{Code: code, Data: []byte{1, 2, 3}, Token: vmkit.Vite, Quota: 900000, Store: map[string][]byte{vmkit.Key32(0): {9}}}
						o := ref.Run(b.Env(&cs))
						if o.Err == ref.EQuota {
							continue
						}
						b.Load(&cs)
						db := b.W.NewDb(b.Self)
						ret, err := vm.NewVM(nil).OffChainReader(db, code, cs.Data)
						c.AddStates(1)
						c.AddTransitions(o.Steps)
						got := ""
						if err != nil {
							got = err.Error()
						}
						want := o.Ret
						if o.Err != "" {
							want = nil
						}
						if got != o.Err || !bytes.Equal(ret, want) {
							c.Fail("V02/query", "code %x returns %x %q, expected %x %q", code, ret, got, want, o.Err)
						}
						if len(db.GetUnsavedStorage()) != 0 || len(db.GetLogList()) != 0 || len(db.GetUnsavedBalanceMap()) != 0 {
							c.Fail("V02/query-effect", "code %x left effects", code)
						}
					}
				}
			}},
		}
		return scs
	}, Assumptions: []string{"all network upgrades active", "messages to built-in contracts and inputs larger than 2 GiB of CALL2 are checked for termination and quota only"}})
}
