// Package ref holds reference implementations written from the documented semantics, independent of go-vite's code.
package ref

import (
	"bytes"
	"fmt"
	"math/big"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

// Error classes of contract execution.
const (
	OK              = ""
	EInvalidOp      = "invalid opcode"
	EUnderflow      = "stack underflow"
	ELimit          = "stack limit reached"
	EMemOverflow    = "memory size uint64 overflow"
	EGasOverflow    = "gas uint64 overflow"
	EQuota          = "out of quota"
	EJump           = "invalid jump destination"
	EReturnData     = "vm: return data out of bounds"
	EStorageLimit   = "contract storage modify count limit reached"
	ERevert         = "execution reverted"
	ENoContract     = "contract not exists"
	EBuiltin        = "builtin target" // outside the reference
)

var (
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
	two255 = new(big.Int).Lsh(big.NewInt(1), 255)
	one    = big.NewInt(1)
)

func u(x *big.Int) *big.Int { return new(big.Int).Mod(x, two256) } // Euclidean: non-negative
func s(x *big.Int) *big.Int {
	if x.Cmp(two255) >= 0 {
		return new(big.Int).Sub(x, two256)
	}
	return new(big.Int).Set(x)
}
func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

// Log is one event.
type Log struct {
	Topics [][]byte
	Data   []byte
}

// Call is one outgoing message.
type Call struct {
	To     [21]byte
	Token  [10]byte
	Amount *big.Int
	Data   []byte
	Hash   bool // the program asked for the hash of the message
}

// Env is what the program can observe.
type Env struct {
	Code, Data                     []byte
	Address, Caller                []byte
	Token                          []byte
	Value                          *big.Int
	Time                           int64
	Height, AccountHeight          uint64
	PrevHash, FromHash             []byte
	Seed, Random                   uint64
	Balance                        func(tok [10]byte) *big.Int
	Storage                        func(key []byte) []byte // value before this call
	Multiplier                     func(to [21]byte) int   // quota multiplier x10 of the target, 0 if it is a contract that does not exist, -1 for built-in ones
	CallHash                       func(i int, c *Call) []byte
	Quota                          uint64
	// Quirks reproduces three known deviations of the implementation (see DESIGN.md) so that the rest can be compared.
	QuirkSar, QuirkCallData, QuirkCall2Mem bool
	// NoSha avoids nothing; reserved.
	MaxSteps int
}

// Out is the result of an execution.
type Out struct {
	Err       string
	QuotaLeft uint64
	Store     map[string][]byte // writes (32 byte key)
	Logs      []Log
	Calls     []Call
	Ret       []byte
	Stack     []*big.Int
	Mem       []byte
	Steps     int
	// UsedUninit: a message took its data from memory that did not exist yet.
	UsedUninit bool
	// OutOfScope: the run left what the reference defines.
	OutOfScope bool
}

type vm struct {
	e       *Env
	st      []*big.Int
	mem     []byte
	lastMem uint64
	out     *Out
	mod     map[string]bool
	dests   []bool
	pc      int
}

func (m *vm) pop() *big.Int {
	x := m.st[len(m.st)-1]
	m.st = m.st[:len(m.st)-1]
	return x
}
func (m *vm) push(x *big.Int)     { m.st = append(m.st, x) }
func (m *vm) back(i int) *big.Int { return m.st[len(m.st)-1-i] }

type opInfo struct {
	pop, push int
	gas       uint64
	ok        bool
}

var ops [256]opInfo

func def(op byte, pop, push int, gas uint64) { ops[op] = opInfo{pop, push, gas, true} }

func init() {
	def(0x00, 0, 0, 0)
	def(0x01, 2, 1, 2)
	def(0x02, 2, 1, 2)
	def(0x03, 2, 1, 2)
	def(0x04, 2, 1, 3)
	def(0x05, 2, 1, 5)
	def(0x06, 2, 1, 3)
	def(0x07, 2, 1, 4)
	def(0x08, 3, 1, 4)
	def(0x09, 3, 1, 5)
	def(0x0a, 2, 1, 10)
	def(0x0b, 2, 1, 2)
	for op := byte(0x10); op <= 0x14; op++ {
		def(op, 2, 1, 2)
	}
	def(0x15, 1, 1, 1)
	def(0x16, 2, 1, 2)
	def(0x17, 2, 1, 2)
	def(0x18, 2, 1, 2)
	def(0x19, 1, 1, 2)
	def(0x1a, 2, 1, 2)
	def(0x1b, 2, 1, 2)
	def(0x1c, 2, 1, 2)
	def(0x1d, 2, 1, 3)
	def(0x20, 2, 1, 20)
	def(0x21, 2, 1, 20)
	def(0x30, 0, 1, 1)
	def(0x31, 1, 1, 150)
	def(0x33, 0, 1, 1)
	def(0x34, 0, 1, 1)
	def(0x35, 1, 1, 2)
	def(0x36, 0, 1, 1)
	def(0x37, 3, 0, 3)
	def(0x38, 0, 1, 1)
	def(0x39, 3, 0, 3)
	def(0x3d, 0, 1, 1)
	def(0x3e, 3, 0, 3)
	def(0x42, 0, 1, 1)
	def(0x43, 0, 1, 1)
	def(0x46, 0, 1, 1)
	def(0x47, 0, 1, 1)
	def(0x48, 0, 1, 1)
	def(0x49, 0, 1, 1)
	def(0x4a, 0, 1, 200)
	def(0x4b, 0, 1, 250)
	def(0x50, 1, 0, 1)
	def(0x51, 1, 1, 2)
	def(0x52, 2, 0, 1)
	def(0x53, 2, 0, 1)
	def(0x54, 1, 1, 150)
	def(0x55, 2, 0, 0)
	def(0x56, 1, 0, 4)
	def(0x57, 2, 0, 4)
	def(0x58, 0, 1, 1)
	def(0x59, 0, 1, 1)
	def(0x5b, 0, 0, 1)
	for i := 0; i < 32; i++ {
		def(byte(0x60+i), 0, 1, 1)
	}
	for i := 0; i < 16; i++ {
		def(byte(0x80+i), i+1, i+2, 1)
		def(byte(0x90+i), i+2, i+2, 2)
	}
	for i := 0; i < 5; i++ {
		def(byte(0xa0+i), i+2, 0, 0)
	}
	def(0xf1, 5, 0, 0)
	def(0xf2, 5, 1, 0)
	def(0xf3, 2, 0, 0)
	def(0xfd, 2, 0, 0)
}

// Defined tells whether the opcode exists.
func Defined(op byte) bool { return ops[op].ok }

// memory operands of an op: offset index, length index on the stack or fixed length
func memRange(op byte) (off, length int, fixed int64) {
	switch op {
	case 0x20, 0x21, 0xf3, 0xfd, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4:
		return 0, 1, 0
	case 0x37, 0x39, 0x3e:
		return 0, 2, 0
	case 0x51, 0x52:
		return 0, -1, 32
	case 0x53:
		return 0, -1, 1
	case 0xf1:
		return 3, 4, 0
	}
	return -1, -1, 0
}

func words(n uint64) uint64 { return (n + 31) / 32 }

// Run executes the program.
func Run(e *Env) *Out {
	m := &vm{e: e, out: &Out{Store: map[string][]byte{}, QuotaLeft: e.Quota}, mod: map[string]bool{}}
	m.dests = make([]bool, len(e.Code))
	for i := 0; i < len(e.Code); i++ {
		op := e.Code[i]
		if op == 0x5b {
			m.dests[i] = true
		}
		if op >= 0x60 && op <= 0x7f {
			i += int(op) - 0x5f
		}
	}
	m.loop()
	m.out.Stack, m.out.Mem = m.st, m.mem
	return m.out
}

func (m *vm) fail(e string) { m.out.Err = e }

func slice(data []byte, off, n *big.Int) []byte {
	l := int(n.Uint64())
	r := make([]byte, l)
	if off.IsUint64() && off.Uint64() < uint64(len(data)) {
		copy(r, data[off.Uint64():])
	}
	return r
}

func (m *vm) loop() {
	e, o := m.e, m.out
	for {
		o.Steps++
		if e.MaxSteps > 0 && o.Steps > e.MaxSteps {
			o.OutOfScope = true
			return
		}
		op := byte(0)
		if m.pc < len(e.Code) {
			op = e.Code[m.pc]
		}
		inf := ops[op]
		if !inf.ok {
			m.fail(EInvalidOp)
			return
		}
		if len(m.st) < inf.pop {
			m.fail(EUnderflow)
			return
		}
		if len(m.st)+inf.push-inf.pop > 1024 {
			m.fail(ELimit)
			return
		}
		// memory
		var memEnd uint64
		if off, ln, fixed := memRange(op); off >= 0 {
			l := big.NewInt(fixed)
			if ln >= 0 {
				l = m.back(ln)
			}
			if l.Sign() != 0 {
				end := new(big.Int).Add(m.back(off), l)
				if end.BitLen() > 64 {
					m.fail(EMemOverflow)
					return
				}
				memEnd = end.Uint64()
				if new(big.Int).Mul(new(big.Int).SetUint64(words2(memEnd)), big.NewInt(32)).BitLen() > 64 {
					m.fail(EMemOverflow)
					return
				}
			}
		}
		cost := new(big.Int).SetUint64(inf.gas)
		newLen := uint64(len(m.mem))
		if memEnd > 0 {
			w := words2(memEnd)
			if w*32 > 0xffffffffe0 {
				m.fail(EGasOverflow)
				return
			}
			if w*32 > newLen {
				newLen = w * 32
				total := w + w*w/1024
				cost.Add(cost, new(big.Int).SetUint64(total-m.lastMem))
				m.lastMem = total
			}
		}
		refund := false
		addWords := func(n *big.Int, per int64) {
			w := new(big.Int).Add(n, big.NewInt(31))
			w.Rsh(w, 5)
			cost.Add(cost, w.Mul(w, big.NewInt(per)))
		}
		switch {
		case op == 0x0a:
			cost.Add(cost, big.NewInt(int64(50*((m.back(1).BitLen()+7)/8))))
		case op == 0x20 || op == 0x21:
			addWords(m.back(1), 1)
		case op == 0x37 || op == 0x39 || op == 0x3e:
			addWords(m.back(2), 3)
		case op >= 0xa0 && op <= 0xa4:
			cost.Add(cost, big.NewInt(375+375*int64(op-0xa0)))
			cost.Add(cost, new(big.Int).Mul(m.back(1), big.NewInt(12)))
		case op == 0x55:
			key := pad32(m.back(0))
			m.mod[string(key)] = true
			if len(m.mod) > 100 {
				m.fail(EStorageLimit)
				return
			}
			c, r := sstore(e.Storage(key), m.sload(key), m.back(1).Bytes())
			cost.Add(cost, big.NewInt(c))
			refund = r
		case op == 0xf1 || op == 0xf2:
			to, _ := addr21(m.back(0))
			mult := e.Multiplier(to)
			if mult < 0 {
				o.OutOfScope = true
				return
			}
			off, n := m.back(3), m.back(4)
			if !n.IsInt64() || !off.IsInt64() || n.Uint64() > 1<<31 {
				if op == 0xf2 {
					o.OutOfScope = true
					return
				}
			}
			ln := n
			if n.Sign() > 0 && new(big.Int).Add(off, n).Cmp(big.NewInt(int64(len(m.mem)))) > 0 {
				o.UsedUninit = true
				if off.Cmp(big.NewInt(int64(len(m.mem)))) >= 0 && (e.QuirkCallData || op == 0xf2) {
					ln = new(big.Int)
				}
			}
			if mult == 0 {
				// paying for the memory comes first
				if o.UsedUninit && (cost.Cmp(new(big.Int).SetUint64(o.QuotaLeft)) > 0 || n.Cmp(new(big.Int).SetUint64(o.QuotaLeft)) > 0) {
					o.OutOfScope = true
					return
				}
				m.fail(ENoContract)
				return
			}
			c := new(big.Int).Mul(ln, big.NewInt(28))
			c.Add(c, big.NewInt(21000))
			c.Mul(c, big.NewInt(int64(mult)))
			c.Div(c, big.NewInt(10))
			c.Sub(c, big.NewInt(13500))
			if c.Sign() > 0 {
				cost.Add(cost, c)
			}
		}
		if refund {
			o.QuotaLeft += cost.Uint64()
		} else {
			if cost.Cmp(new(big.Int).SetUint64(o.QuotaLeft)) > 0 {
				o.QuotaLeft = 0
				m.fail(EQuota)
				return
			}
			o.QuotaLeft -= cost.Uint64()
		}
		if uint64(len(m.mem)) < newLen {
			m.mem = append(m.mem, make([]byte, newLen-uint64(len(m.mem)))...)
		}
		if m.exec(op) {
			return
		}
	}
}

func words2(n uint64) uint64 {
	if n > ^uint64(0)-31 {
		return ^uint64(0)/32 + 1
	}
	return (n + 31) / 32
}

func (m *vm) sload(key []byte) []byte {
	if v, ok := m.out.Store[string(key)]; ok {
		return v
	}
	return m.e.Storage(key)
}

func sstore(orig, cur, nw []byte) (int64, bool) {
	if bytes.Equal(cur, nw) {
		return 200, false
	}
	if bytes.Equal(orig, cur) {
		if len(orig) > 0 && len(nw) == 0 {
			return 0, false
		}
		return 15000, false
	}
	if bytes.Equal(orig, nw) {
		if len(orig) > 0 && len(cur) == 0 {
			return 400, false
		}
		return 14600, true
	}
	if len(orig) > 0 && len(cur) == 0 {
		return 15200, false
	}
	if len(orig) > 0 && len(nw) == 0 {
		return 14800, true
	}
	return 200, false
}

// Pad32 is the 32 byte big endian form.
func Pad32(x *big.Int) []byte { return pad32(x) }

func pad32(x *big.Int) []byte { b := make([]byte, 32); x.FillBytes(b); return b }
func addr21(x *big.Int) (r [21]byte, ok bool) {
	if x.BitLen() > 168 {
		return r, false
	}
	x.FillBytes(r[:])
	return r, true
}
func tok10(x *big.Int) (r [10]byte) {
	if x.BitLen() > 80 {
		return r
	}
	x.FillBytes(r[:])
	return r
}

func (m *vm) memGet(off, n *big.Int) []byte {
	if n.Sign() == 0 {
		return nil
	}
	return append([]byte{}, m.mem[off.Uint64():off.Uint64()+n.Uint64()]...)
}

func (m *vm) exec(op byte) bool {
	e, o := m.e, m.out
	next := m.pc + 1
	bi := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	by := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	switch {
	case op == 0x00:
		return true
	case op == 0x01:
		a, b := m.pop(), m.pop()
		m.push(u(new(big.Int).Add(a, b)))
	case op == 0x02:
		a, b := m.pop(), m.pop()
		m.push(u(new(big.Int).Mul(a, b)))
	case op == 0x03:
		a, b := m.pop(), m.pop()
		m.push(u(new(big.Int).Sub(a, b)))
	case op == 0x04:
		a, b := m.pop(), m.pop()
		if b.Sign() == 0 {
			m.push(new(big.Int))
		} else {
			m.push(new(big.Int).Quo(a, b))
		}
	case op == 0x05:
		a, b := s(m.pop()), s(m.pop())
		if b.Sign() == 0 {
			m.push(new(big.Int))
		} else {
			m.push(u(new(big.Int).Quo(a, b))) // truncated
		}
	case op == 0x06:
		a, b := m.pop(), m.pop()
		if b.Sign() == 0 {
			m.push(new(big.Int))
		} else {
			m.push(new(big.Int).Rem(a, b))
		}
	case op == 0x07:
		a, b := s(m.pop()), s(m.pop())
		if b.Sign() == 0 {
			m.push(new(big.Int))
		} else {
			m.push(u(new(big.Int).Rem(a, b))) // sign of the dividend
		}
	case op == 0x08, op == 0x09:
		a, b, n := m.pop(), m.pop(), m.pop()
		if n.Sign() == 0 {
			m.push(new(big.Int))
		} else if op == 0x08 {
			m.push(new(big.Int).Mod(new(big.Int).Add(a, b), n))
		} else {
			m.push(new(big.Int).Mod(new(big.Int).Mul(a, b), n))
		}
	case op == 0x0a:
		a, b := m.pop(), m.pop()
		m.push(new(big.Int).Exp(a, b, two256))
	case op == 0x0b:
		k, x := m.pop(), m.pop()
		if k.Cmp(big.NewInt(31)) < 0 {
			bits := uint(k.Uint64()*8 + 8)
			mod := new(big.Int).Lsh(one, bits)
			v := new(big.Int).Mod(x, mod)
			if v.Cmp(new(big.Int).Rsh(mod, 1)) >= 0 {
				v.Sub(v, mod)
			}
			x = u(v)
		}
		m.push(x)
	case op == 0x10:
		a, b := m.pop(), m.pop()
		m.push(b2i(a.Cmp(b) < 0))
	case op == 0x11:
		a, b := m.pop(), m.pop()
		m.push(b2i(a.Cmp(b) > 0))
	case op == 0x12:
		a, b := m.pop(), m.pop()
		m.push(b2i(s(a).Cmp(s(b)) < 0))
	case op == 0x13:
		a, b := m.pop(), m.pop()
		m.push(b2i(s(a).Cmp(s(b)) > 0))
	case op == 0x14:
		a, b := m.pop(), m.pop()
		m.push(b2i(a.Cmp(b) == 0))
	case op == 0x15:
		m.push(b2i(m.pop().Sign() == 0))
	case op == 0x16:
		a, b := m.pop(), m.pop()
		m.push(new(big.Int).And(a, b))
	case op == 0x17:
		a, b := m.pop(), m.pop()
		m.push(new(big.Int).Or(a, b))
	case op == 0x18:
		a, b := m.pop(), m.pop()
		m.push(new(big.Int).Xor(a, b))
	case op == 0x19:
		m.push(new(big.Int).Sub(new(big.Int).Sub(two256, one), m.pop()))
	case op == 0x1a:
		i, x := m.pop(), m.pop()
		if i.Cmp(big.NewInt(32)) < 0 {
			m.push(bi(uint64(pad32(x)[i.Uint64()])))
		} else {
			m.push(new(big.Int))
		}
	case op == 0x1b, op == 0x1c:
		n, x := m.pop(), m.pop()
		if n.Cmp(big.NewInt(256)) >= 0 {
			m.push(new(big.Int))
		} else if op == 0x1b {
			m.push(u(new(big.Int).Mul(x, new(big.Int).Lsh(one, uint(n.Uint64())))))
		} else {
			m.push(new(big.Int).Quo(x, new(big.Int).Lsh(one, uint(n.Uint64()))))
		}
	case op == 0x1d:
		n, x := m.pop(), m.pop()
		neg := x.Cmp(two255) >= 0
		if n.Cmp(big.NewInt(256)) >= 0 {
			if neg || (e.QuirkSar && x.Sign() == 0) {
				m.push(new(big.Int).Sub(two256, one))
			} else {
				m.push(new(big.Int))
			}
		} else {
			// floor division of the signed value
			m.push(u(new(big.Int).Div(s(x), new(big.Int).Lsh(one, uint(n.Uint64())))))
		}
	case op == 0x20, op == 0x21:
		off, n := m.pop(), m.pop()
		d := m.memGet(off, n)
		if op == 0x20 {
			h := sha3.NewLegacyKeccak256()
			h.Write(d)
			m.push(by(h.Sum(nil)))
		} else {
			h := blake2b.Sum256(d)
			m.push(by(h[:]))
		}
	case op == 0x30:
		m.push(by(e.Address))
	case op == 0x31:
		m.push(new(big.Int).Set(e.Balance(tok10(m.pop()))))
	case op == 0x33:
		m.push(by(e.Caller))
	case op == 0x34:
		m.push(new(big.Int).Set(e.Value))
	case op == 0x35:
		m.push(by(slice(e.Data, m.pop(), big.NewInt(32))))
	case op == 0x36:
		m.push(bi(uint64(len(e.Data))))
	case op == 0x37, op == 0x39:
		mo, do, n := m.pop(), m.pop(), m.pop()
		src := e.Data
		if op == 0x39 {
			src = e.Code
		}
		if n.Sign() > 0 {
			copy(m.mem[mo.Uint64():], slice(src, do, n))
		}
	case op == 0x38:
		m.push(bi(uint64(len(e.Code))))
	case op == 0x3d:
		m.push(new(big.Int))
	case op == 0x3e:
		_, do, n := m.pop(), m.pop(), m.pop()
		if do.Sign() > 0 || n.Sign() > 0 {
			m.fail(EReturnData)
			return true
		}
	case op == 0x42:
		m.push(big.NewInt(e.Time))
	case op == 0x43:
		m.push(bi(e.Height))
	case op == 0x46:
		m.push(by(e.Token))
	case op == 0x47:
		m.push(bi(e.AccountHeight))
	case op == 0x48:
		m.push(by(e.PrevHash))
	case op == 0x49:
		m.push(by(e.FromHash))
	case op == 0x4a:
		m.push(bi(e.Seed))
	case op == 0x4b:
		m.push(bi(e.Random))
	case op == 0x50:
		m.pop()
	case op == 0x51:
		off := m.pop()
		m.push(by(m.mem[off.Uint64() : off.Uint64()+32]))
	case op == 0x52:
		off, v := m.pop(), m.pop()
		copy(m.mem[off.Uint64():], pad32(v))
	case op == 0x53:
		off, v := m.pop(), m.pop()
		m.mem[off.Uint64()] = pad32(v)[31]
	case op == 0x54:
		m.push(by(m.sload(pad32(m.pop()))))
	case op == 0x55:
		k, v := m.pop(), m.pop()
		o.Store[string(pad32(k))] = v.Bytes()
	case op == 0x56, op == 0x57:
		d := m.pop()
		take := true
		if op == 0x57 {
			take = m.pop().Sign() != 0
		}
		if take {
			if !d.IsUint64() || d.Uint64() >= uint64(len(e.Code)) || !m.dests[d.Uint64()] {
				m.fail(EJump)
				return true
			}
			next = int(d.Uint64())
		}
	case op == 0x58:
		m.push(bi(uint64(m.pc)))
	case op == 0x59:
		m.push(bi(uint64(len(m.mem))))
	case op == 0x5b:
	case op >= 0x60 && op <= 0x7f:
		n := int(op) - 0x5f
		b := make([]byte, n)
		if m.pc+1 < len(e.Code) {
			copy(b, e.Code[m.pc+1:])
		}
		m.push(by(b))
		next = m.pc + 1 + n
	case op >= 0x80 && op <= 0x8f:
		m.push(new(big.Int).Set(m.back(int(op - 0x80))))
	case op >= 0x90 && op <= 0x9f:
		i, j := len(m.st)-1, len(m.st)-2-int(op-0x90)
		m.st[i], m.st[j] = m.st[j], m.st[i]
	case op >= 0xa0 && op <= 0xa4:
		off, n := m.pop(), m.pop()
		l := Log{}
		for i := 0; i < int(op-0xa0); i++ {
			l.Topics = append(l.Topics, pad32(m.pop()))
		}
		l.Data = m.memGet(off, n)
		o.Logs = append(o.Logs, l)
	case op == 0xf1 || op == 0xf2:
		to, tok, amt, off, n := m.pop(), m.pop(), m.pop(), m.pop(), m.pop()
		c := Call{Amount: new(big.Int).Set(amt), Token: tok10(tok)}
		c.To, _ = addr21(to)
		if n.Sign() > 0 {
			if op == 0xf1 {
				c.Data = m.memGet(off, n)
			} else if off.Cmp(big.NewInt(int64(len(m.mem)))) < 0 {
				c.Data = make([]byte, n.Uint64())
				copy(c.Data, m.mem[off.Uint64():])
			}
		}
		o.Calls = append(o.Calls, c)
		if op == 0xf2 {
			if e.CallHash == nil {
				o.OutOfScope = true
				return true
			}
			m.push(by(e.CallHash(len(o.Calls)-1, &c)))
		}
	case op == 0xf3:
		off, n := m.pop(), m.pop()
		o.Ret = m.memGet(off, n)
		return true
	case op == 0xfd:
		off, n := m.pop(), m.pop()
		o.Ret = m.memGet(off, n)
		m.fail(ERevert)
		return true
	default:
		panic(fmt.Sprintf("ref: opcode %x", op))
	}
	m.pc = next
	return false
}
