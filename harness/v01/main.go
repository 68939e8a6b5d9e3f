// Property V01: every instruction of a contract computes its documented result at its documented price.
package main

import (
	"fmt"
	"math/big"

	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
	"github.com/vitelabs/go-vite/v2/zz_verif/vmkit"
)

var bench *vmkit.Bench

func bn() *vmkit.Bench {
	if bench == nil {
		bench = vmkit.NewBench()
	}
	return bench
}

func pw(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
func add(x *big.Int, d int64) *big.Int {
	return new(big.Int).Add(x, big.NewInt(d))
}

func words(tier string) []*big.Int {
	var v []*big.Int
	for _, n := range []int64{0, 1, 2, 3, 7, 8, 9, 30, 31, 32, 33, 64, 127, 128, 129, 254, 255, 256, 257, 1000} {
		v = append(v, big.NewInt(n))
	}
	for _, n := range []uint{16, 31, 32, 63, 64, 127, 128, 160, 168, 192, 255} {
		v = append(v, add(pw(n), -1), pw(n), add(pw(n), 1))
	}
	v = append(v, add(pw(256), -1), add(pw(256), -2), add(pw(256), -3), add(pw(256), -32), add(pw(256), -128), add(pw(256), -256))
	for _, h := range []string{"8080808080808080808080808080808080808080808080808080808080808080", "0123456789abcdeffedcba98765432100123456789abcdeffedcba9876543210", "7f00000000000000000000000000000000000000000000000000000000000080", "ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00"} {
		x, _ := new(big.Int).SetString(h, 16)
		v = append(v, x)
	}
	return v
}

func small(tier string) []*big.Int {
	w := words(tier)
	if tier == "thorough" {
		return w
	}
	var v []*big.Int
	for i, x := range w {
		if i%2 == 0 || i >= len(w)-10 {
			v = append(v, x)
		}
	}
	return v
}

func offs() []*big.Int {
	var v []*big.Int
	for _, n := range []int64{0, 1, 5, 31, 32, 33, 63, 64, 65, 96, 100, 1000, 1024, 32768, 100000, 1 << 20, 1 << 24} {
		v = append(v, big.NewInt(n))
	}
	v = append(v, pw(31), add(pw(32), -1), pw(32), big.NewInt(0xffffffffe0), big.NewInt(0xffffffffe1), pw(40), add(pw(63), -1), pw(63), add(pw(64), -33), add(pw(64), -32), add(pw(64), -31), add(pw(64), -1), pw(64), add(pw(64), 1), pw(128), add(pw(256), -1))
	return v
}

// check runs a program, made observable, with ample and with exactly sufficient and insufficient quota.
func check(c *C, name string, cs vmkit.Case, quotas bool) {
	b := bn()
	cs.Quota = 900000
	o, d := b.Diff(&cs)
	if o.OutOfScope {
		c.Count("outside the reference", 1)
		return
	}
	c.AddStates(1)
	c.AddTransitions(o.Steps)
	if d != "" {
		c.Fail("V01/"+name, "code %x data %x storage %x: %s", cs.Code, cs.Data, cs.Store, d)
	}
	if quotas && o.Err == "" {
		used := cs.Quota - o.QuotaLeft
		for _, q := range []uint64{used, used - 1} {
			if q < vmkit.BaseCost {
				continue
			}
			cs.Quota = q
			o2, d := b.Diff(&cs)
			c.AddStates(1)
			c.AddTransitions(o2.Steps)
			if d != "" && !o2.OutOfScope {
				c.Fail("V01/"+name+"-quota", "code %x with %d quota: %s", cs.Code, q, d)
			}
		}
	}
}

// result of an instruction that leaves one word, logged
func show(a *vmkit.Asm) []byte { return a.I(0).Op(0x52).I(32).I(0).Op(0xa0).B }

func arity(op byte) int {
	switch {
	case op == 0x15 || op == 0x19 || op == 0x35 || op == 0x31:
		return 1
	case op == 0x08 || op == 0x09:
		return 3
	}
	return 2
}

func main() {
	Main(Suite{Property: "V01", Scenarios: func(tier string) []Scenario {
		var scs []Scenario
		pure := []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d}
		scs = append(scs, Scenario{Name: "arithmetic", Bound: "every arithmetic, comparison and bit instruction on every combination of boundary words", Body: func(c *C) {
			op := pure[c.Choose(len(pure))]
			w := words(tier)
			n := arity(op)
			if n == 3 {
				w = small(tier)
			}
			x := w[c.Choose(len(w))]
			c.Op("op %x %x", op, x)
			run := func(in ...*big.Int) {
				a := &vmkit.Asm{}
				for i := len(in) - 1; i >= 0; i-- {
					a.Push(in[i])
				}
				check(c, fmt.Sprintf("op-%02x", op), vmkit.Case{Code: show(a.Op(op)), Token: vmkit.Vite}, false)
			}
			if n == 1 {
				run(x)
				return
			}
			for _, y := range w {
				if n == 2 {
					run(x, y)
					continue
				}
				for _, z := range w {
					run(x, y, z)
				}
			}
		}})
		scs = append(scs, Scenario{Name: "environment", Bound: "every instruction that reads the call, the block or the account", Body: func(c *C) {
			ops := []byte{0x30, 0x33, 0x34, 0x36, 0x38, 0x3d, 0x42, 0x43, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x58, 0x59}
			op := ops[c.Choose(len(ops))]
			b := bn()
			c.Op("op %x", op)
			for _, amt := range []int64{0, 1, 12345} {
				for _, data := range [][]byte{nil, {1}, make([]byte, 33), []byte("0123456789abcdef0123456789abcdef0123456789")} {
					check(c, fmt.Sprintf("env-%02x", op), vmkit.Case{Code: show((&vmkit.Asm{}).Op(op)), Data: data, Amount: amt, Token: vmkit.Vite}, true)
					check(c, fmt.Sprintf("env-%02x", op), vmkit.Case{Code: show((&vmkit.Asm{}).Op(op)), Data: data, Amount: amt, Token: b.Tok2}, true)
				}
			}
			toks := []*big.Int{new(big.Int).SetBytes(vmkit.Vite.Bytes()), new(big.Int).SetBytes(b.Tok2.Bytes()), big.NewInt(0), big.NewInt(1), add(pw(256), -1), add(pw(80), -1), pw(80)}
			for _, t := range toks {
				check(c, "env-31", vmkit.Case{Code: show((&vmkit.Asm{}).Push(t).Op(0x31)), Amount: 9, Token: b.Tok2}, true)
				check(c, "env-31", vmkit.Case{Code: show((&vmkit.Asm{}).Push(t).Op(0x31)), Amount: 9, Token: vmkit.Vite}, true)
			}
		}})
		scs = append(scs, Scenario{Name: "memory-and-data", Bound: "every instruction addressing memory, call data, code or return data, on every combination of boundary offsets and lengths, from three memory states", Body: func(c *C) {
			ops := []byte{0x20, 0x21, 0x35, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xf3, 0xfd, 0xf1}
			op := ops[c.Choose(len(ops))]
			ms := c.Choose(3)
			os := offs()
			first := os[c.Choose(len(os))]
			c.Op("op %x mem %d first %v", op, ms, first)
			data := []byte("0123456789abcdef0123456789ABCDEFghijklmnop")
			build := func(in ...*big.Int) {
				a := &vmkit.Asm{}
				for i := 0; i < ms; i++ {
					x, _ := new(big.Int).SetString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20", 16)
					a.Push(x).I(int64(32 * i)).Op(0x52)
				}
				for i := len(in) - 1; i >= 0; i-- {
					a.Push(in[i])
				}
				a.Op(op)
				cs := vmkit.Case{Code: a.B, Data: data, Token: vmkit.Vite, Amount: 3, Quota: 900000}
				p := ref.Run(bn().Env(&cs))
				if p.Err == "" && !p.OutOfScope && op != 0xf3 && op != 0xf1 && len(p.Mem) < 2000 {
					cs.Code = vmkit.Observe(cs.Code, len(p.Stack), len(p.Mem))
				}
				check(c, fmt.Sprintf("mem-%02x", op), cs, true)
			}
			b := bn()
			topics := []*big.Int{big.NewInt(7), pw(255), big.NewInt(0), add(pw(256), -1)}
			switch {
			case op == 0x35 || op == 0x51:
				build(first)
			case op == 0x52 || op == 0x53:
				for _, v := range words(tier) {
					build(first, v)
				}
			case op == 0x37 || op == 0x39 || op == 0x3e:
				for _, d := range os {
					for _, n := range os {
						build(first, d, n)
					}
				}
			case op >= 0xa0 && op <= 0xa4:
				for _, n := range os {
					build(append([]*big.Int{first, n}, topics[:op-0xa0]...)...)
				}
			case op == 0xf1:
				for _, to := range [][]byte{b.Friend.Bytes(), b.Other.Bytes(), b.Ghost.Bytes(), b.Self.Bytes()} {
					for _, amt := range []int64{0, 3, 1003, 1004} {
						for _, n := range os {
							build(new(big.Int).SetBytes(to), new(big.Int).SetBytes(vmkit.Vite.Bytes()), big.NewInt(amt), first, n)
						}
					}
				}
			default:
				for _, n := range os {
					build(first, n)
				}
			}
		}})
		scs = append(scs, Scenario{Name: "stack-limits", Bound: "every opcode byte with every stack height from empty to its arity plus one, and next to the 1024 word limit", Body: func(c *C) {
			op := byte(c.Choose(256))
			c.Op("op %x", op)
			hs := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 1022, 1023, 1024}
			for _, h := range hs {
				for _, top := range []int64{0, 1, 3} {
					a := &vmkit.Asm{}
					for i := 0; i < h; i++ {
						if i >= h-3 {
							a.I(top)
						} else {
							a.I(int64(i%200 + 1))
						}
					}
					a.Op(op)
					for i := 0; i < 4; i++ {
						a.Op(0x5b)
					}
					cs := vmkit.Case{Code: a.B, Data: []byte{1, 2, 3}, Token: vmkit.Vite, Quota: 900000, Steps: 20000}
					if op == 0xf2 {
						continue
					}
					p := ref.Run(bn().Env(&cs))
					if p.Err == "" && !p.OutOfScope && len(p.Stack) < 30 && len(p.Mem) < 5000 && op != 0 && op != 0xf3 {
						cs.Code = vmkit.Observe(cs.Code, len(p.Stack), len(p.Mem))
					}
					check(c, fmt.Sprintf("stack-%02x", op), cs, h < 20)
				}
			}
		}})
		scs = append(scs, Scenario{Name: "push-dup-swap", Bound: "every push width, complete and truncated, every duplicate and exchange instruction at every depth", Body: func(c *C) {
			op := byte(0x60 + c.Choose(64))
			c.Op("op %x", op)
			if op < 0x80 {
				n := int(op) - 0x5f
				for l := 0; l <= n; l++ {
					a := &vmkit.Asm{}
					a.Op(op)
					for i := 0; i < l; i++ {
						a.Op(byte(0x81 + i))
					}
					check(c, "push", vmkit.Case{Code: a.B, Token: vmkit.Vite}, true)
					if l == n {
						check(c, "push", vmkit.Case{Code: show(a), Token: vmkit.Vite}, true)
					}
				}
				// a truncated push as the very end of code reached by a jump over it is still zero padded
				return
			}
			for d := 0; d < 19; d++ {
				a := &vmkit.Asm{}
				for i := 0; i < d; i++ {
					a.I(int64(i + 1))
				}
				a.Op(op)
				cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Quota: 900000}
				p := ref.Run(bn().Env(&cs))
				if p.Err == "" {
					cs.Code = vmkit.Observe(cs.Code, len(p.Stack), len(p.Mem))
				}
				check(c, "dup-swap", cs, true)
			}
		}})
		sd := 4
		if tier == "thorough" {
			sd = 5
		}
		scs = append(scs, Scenario{Name: "storage", Bound: fmt.Sprintf("every sequence of %d storage reads and writes of 2 keys and 4 values from 3 initial states", sd), Body: func(c *C) {
			init := c.Choose(3)
			vals := []*big.Int{big.NewInt(0), big.NewInt(5), big.NewInt(256), add(pw(256), -1)}
			st := map[string][]byte{}
			if init >= 1 {
				st[vmkit.Key32(0)] = []byte{5}
			}
			if init >= 2 {
				st[vmkit.Key32(1)] = []byte{1, 0}
			}
			f := c.Choose(10)
			n := 1
			for i := 1; i < sd; i++ {
				n *= 10
			}
			c.Op("init %d first %d", init, f)
			for i := 0; i < n; i++ {
				a := &vmkit.Asm{}
				for j, x := 0, i*10+f; j < sd; j++ {
					k := x % 10
					x /= 10
					switch {
					case k < 8:
						a.Push(vals[k%4]).I(int64(k / 4)).Op(0x55)
					default:
						a.I(int64(k - 8)).Op(0x54)
					}
				}
				cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Store: st, Quota: 900000}
				p := ref.Run(bn().Env(&cs))
				cs.Code = vmkit.Observe(cs.Code, len(p.Stack), len(p.Mem))
				check(c, "storage", cs, i%50 == 0)
			}
		}})
		scs = append(scs, Scenario{Name: "storage-count", Bound: "1 to 104 distinct written slots, rewrites and clears", Body: func(c *C) {
			n := []int{1, 50, 99, 100, 101, 104}[c.Choose(6)]
			rw := c.Choose(3)
			c.Op("%d slots, variant %d", n, rw)
			a := &vmkit.Asm{}
			st := map[string][]byte{}
			for i := 0; i < 104; i++ {
				st[vmkit.Key32(int64(i))] = []byte{1}
			}
			for i := 0; i < n; i++ {
				v := int64(1)
				if rw == 1 {
					v = 0
				}
				a.I(v).I(int64(i)).Op(0x55)
				if rw == 2 {
					a.I(0).I(int64(i)).Op(0x55)
				}
			}
			check(c, "storage-count", vmkit.Case{Code: a.B, Token: vmkit.Vite, Store: st}, false)
		}})
		scs = append(scs, Scenario{Name: "jumps", Bound: "every destination of programs whose code, push data and end contain landing marks", Body: func(c *C) {
			progs := [][]byte{
				{0x5b, 0x60, 0x5b, 0x5b, 0x61, 0x5b, 0x5b, 0x5b, 0x00, 0x5b},
				{0x5b, 0x7f, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x5b, 0x00, 0x5b},
				{0x60, 0x60, 0x5b, 0x60, 0x61, 0x5b, 0x62, 0x5b, 0x60, 0x60, 0x5b, 0x00},
				{0x5b, 0x5b, 0x62, 0x5b},
				{0xfe, 0x5b, 0xc0, 0x5b, 0x00, 0x5b, 0x6f, 0x5b, 0x5b},
			}
			for w := 0x60; w < 0x80; w++ {
				p := []byte{0x5b, byte(w)}
				for i := 0; i < 34; i++ {
					p = append(p, 0x5b)
				}
				progs = append(progs, p)
			}
			p := progs[c.Choose(len(progs))]
			kind := c.Choose(3)
			c.Op("%x kind %d", p, kind)
			dests := []*big.Int{pw(31), pw(32), pw(63), pw(64), add(pw(64), 4), add(pw(256), -1), pw(255)}
			for d := 0; d < len(p)+12; d++ {
				dests = append(dests, big.NewInt(int64(d)))
			}
			for _, d := range dests {
				a := &vmkit.Asm{}
				switch kind {
				case 0:
					a.Push(d).Op(0x56)
				case 1:
					a.I(1).Push(d).Op(0x57)
				case 2:
					a.I(0).Push(d).Op(0x57)
				}
				// landing programs are bounded by a small quota
				a.Op(p...)
				cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Quota: 60000}
				o, df := bn().Diff(&cs)
				c.AddStates(1)
				c.AddTransitions(o.Steps)
				if df != "" {
					c.Fail("V01/jump", "code %x to %v: %s", cs.Code, d, df)
				}
			}
		}})
		scs = append(scs, Scenario{Name: "calls", Bound: "every sequence of up to 3 outgoing messages over targets, tokens, amounts and data", Body: func(c *C) {
			b := bn()
			type msg struct {
				to  []byte
				tok []byte
				amt int64
				n   int64
			}
			var all []msg
			for _, to := range [][]byte{b.Friend.Bytes(), b.Other.Bytes(), b.Self.Bytes()} {
				for _, tk := range [][]byte{vmkit.Vite.Bytes(), b.Tok2.Bytes()} {
					for _, amt := range []int64{0, 40, 77, 600} {
						for _, n := range []int64{0, 4} {
							all = append(all, msg{to, tk, amt, n})
						}
					}
				}
			}
			n := 1 + c.Choose(3)
			f := c.Choose(len(all))
			c.Op("%d messages first %d", n, f)
			total := 1
			for i := 1; i < n; i++ {
				total *= len(all)
			}
			if n == 3 && tier != "thorough" {
				total = len(all) * 12
			}
			for i := 0; i < total; i++ {
				a := &vmkit.Asm{}
				a.Push(pw(255)).I(0).Op(0x52)
				for j, x := 0, i; j < n; j++ {
					m := all[f]
					if j > 0 {
						m = all[(x*7)%len(all)]
						x /= len(all)
					}
					a.I(m.n).I(0).I(m.amt).Push(new(big.Int).SetBytes(m.tok)).Push(new(big.Int).SetBytes(m.to)).Op(0xf1)
				}
				check(c, "calls", vmkit.Case{Code: a.B, Token: b.Tok2, Amount: 3}, i == 0)
			}
		}})
		// recorded deviations, one execution each
		scs = append(scs, Scenario{Name: "recorded-sar", Bound: "one program", Body: func(c *C) {
			b := bn()
			b.Quirks = false
			defer func() { b.Quirks = true }()
			cs := vmkit.Case{Code: show((&vmkit.Asm{}).I(0).I(256).Op(0x1d)), Token: vmkit.Vite, Quota: 900000}
			c.State()
			if _, d := b.Diff(&cs); d != "" {
				c.Fail("V01/sar-of-zero-by-256", "code %x: %s", cs.Code, d)
			}
		}})
		scs = append(scs, Scenario{Name: "recorded-call-data", Bound: "one program", Body: func(c *C) {
			b := bn()
			b.Quirks = false
			defer func() { b.Quirks = true }()
			a := &vmkit.Asm{}
			a.I(64).I(0).I(0).Push(new(big.Int).SetBytes(vmkit.Vite.Bytes())).Push(new(big.Int).SetBytes(b.Friend.Bytes())).Op(0xf1)
			cs := vmkit.Case{Code: a.B, Token: vmkit.Vite, Quota: 900000}
			c.State()
			if _, d := b.Diff(&cs); d != "" {
				c.Fail("V01/call-data-of-fresh-memory-is-free", "code %x: %s", cs.Code, d)
			}
		}})
		return scs
	}, Assumptions: []string{"all network upgrades active (current instruction set and quota table)", "one contract receive per execution; messages to built-in contracts are covered by the built-in contract properties"}})
}
