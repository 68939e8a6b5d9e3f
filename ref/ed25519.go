package ref

import (
	"math/big"
	"sync"

	"golang.org/x/crypto/blake2b"
)

// Ed25519 with BLAKE2b-512 in place of SHA-512, written from RFC 8032 with big integers.

var (
	EdP  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	EdL  = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), edDec("27742317777372353535851937790883648493"))
	edD  = edMod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), EdP)))
	edI  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(EdP, big.NewInt(1)), 2), EdP)
	EdB  *EdPoint
	edBs [256]*EdPoint // 2^i B
)

type EdPoint struct{ X, Y, Z, T *big.Int }

func edDec(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func edMod(n *big.Int) *big.Int {
	return n.Mod(n, EdP)
}
func edMul(a, b *big.Int) *big.Int { return edMod(new(big.Int).Mul(a, b)) }
func edAdd(a, b *big.Int) *big.Int { return edMod(new(big.Int).Add(a, b)) }
func edSub(a, b *big.Int) *big.Int { return edMod(new(big.Int).Sub(a, b)) }

func EdZero() *EdPoint {
	return &EdPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

func init() {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 0x66
	}
	b[0] = 0x58
	EdB = EdDecode(b)
	q := EdB
	for i := range edBs {
		edBs[i] = q
		q = EdSum(q, q)
	}
}

func EdSum(p, q *EdPoint) *EdPoint {
	a := edMul(edSub(p.Y, p.X), edSub(q.Y, q.X))
	b := edMul(edAdd(p.Y, p.X), edAdd(q.Y, q.X))
	c := edMul(edMul(new(big.Int).Lsh(p.T, 1), q.T), edD)
	d := edMul(new(big.Int).Lsh(p.Z, 1), q.Z)
	e, f, g, h := edSub(b, a), edSub(d, c), edAdd(d, c), edAdd(b, a)
	return &EdPoint{edMul(e, f), edMul(g, h), edMul(f, g), edMul(e, h)}
}

func EdNeg(p *EdPoint) *EdPoint {
	return &EdPoint{edSub(new(big.Int), p.X), p.Y, p.Z, edSub(new(big.Int), p.T)}
}

func EdTimes(n *big.Int, p *EdPoint) *EdPoint {
	r := EdZero()
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = EdSum(r, r)
		if n.Bit(i) == 1 {
			r = EdSum(r, p)
		}
	}
	return r
}

func EdBase(n *big.Int) *EdPoint {
	r := EdZero()
	for i := 0; i < n.BitLen(); i++ {
		if n.Bit(i) == 1 {
			r = EdSum(r, edBs[i])
		}
	}
	return r
}

func EdLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func EdBytes(n *big.Int) []byte {
	r := make([]byte, 32)
	for i, c := range n.Bytes() {
		r[len(n.Bytes())-1-i] = c
	}
	return r
}

func EdEncode(p *EdPoint) []byte {
	zi := new(big.Int).ModInverse(p.Z, EdP)
	x, y := edMul(p.X, zi), edMul(p.Y, zi)
	r := EdBytes(y)
	r[31] |= byte(x.Bit(0)) << 7
	return r
}

// EdDecode returns nil when no point of the curve has that encoding. The y coordinate is reduced, as in ref10:
// encodings of y beyond the prime name the reduced point.
func EdDecode(b []byte) *EdPoint {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 127
	y := edMod(EdLE(c))
	y2 := edMul(y, y)
	u, v := edSub(y2, big.NewInt(1)), edAdd(edMul(edD, y2), big.NewInt(1))
	w := edMul(u, new(big.Int).ModInverse(v, EdP))
	e := new(big.Int).Rsh(new(big.Int).Add(EdP, big.NewInt(3)), 3)
	x := new(big.Int).Exp(w, e, EdP)
	if edMul(x, x).Cmp(w) != 0 {
		x = edMul(x, edI)
	}
	if edMul(x, x).Cmp(w) != 0 {
		return nil
	}
	if x.Bit(0) != sign {
		x = edSub(new(big.Int), x)
	}
	return &EdPoint{x, y, big.NewInt(1), edMul(x, y)}
}

func b2(p ...[]byte) []byte {
	h, _ := blake2b.New512(nil)
	for _, x := range p {
		h.Write(x)
	}
	return h.Sum(nil)
}

// EdSecret gives the scalar and the nonce prefix of a seed.
func EdSecret(seed []byte) (*big.Int, []byte) {
	d := b2(seed)
	k := append([]byte{}, d[:32]...)
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return EdLE(k), d[32:]
}

func EdPublic(seed []byte) []byte {
	a, _ := EdSecret(seed)
	return EdEncode(EdBase(a))
}

func EdSign(seed, pub, msg []byte) []byte {
	a, prefix := EdSecret(seed)
	r := new(big.Int).Mod(EdLE(b2(prefix, msg)), EdL)
	R := EdEncode(EdBase(r))
	h := new(big.Int).Mod(EdLE(b2(R, pub, msg)), EdL)
	s := h.Mul(h, a)
	s.Add(s, r).Mod(s, EdL)
	return append(R, EdBytes(s)...)
}

// EdVerify is the cofactorless check of ref10: R is compared as bytes and s must be reduced.
func EdVerify(pub, msg, sig []byte) bool {
	k := string(pub) + "|" + string(msg) + "|" + string(sig)
	edLast.Lock()
	defer edLast.Unlock()
	if edLast.key != k {
		edLast.key, edLast.ok = k, edVerify(pub, msg, sig)
	}
	return edLast.ok
}

// the last question is often asked again
var edLast struct {
	sync.Mutex
	key string
	ok  bool
}

func edVerify(pub, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	s := EdLE(sig[32:])
	if s.Cmp(EdL) >= 0 {
		return false
	}
	A := EdDecode(pub)
	if A == nil {
		return false
	}
	h := new(big.Int).Mod(EdLE(b2(sig[:32], pub, msg)), EdL)
	if o := EdTimes(big.NewInt(8), A); o.X.Sign() == 0 && o.Y.Cmp(o.Z) == 0 { // a point of small order
		h.And(h, big.NewInt(7))
	}
	return string(EdEncode(EdSum(EdBase(s), EdTimes(h, EdNeg(A))))) == string(sig[:32])
}

// EdMontgomery is the u coordinate of the point on the Montgomery curve.
func EdMontgomery(pub []byte) []byte {
	c := append([]byte{}, pub...)
	c[31] &= 127
	y := edMod(EdLE(c))
	n, d := edAdd(big.NewInt(1), y), edSub(big.NewInt(1), y)
	if d.Sign() == 0 {
		return make([]byte, 32)
	}
	return EdBytes(edMul(n, new(big.Int).ModInverse(d, EdP)))
}
