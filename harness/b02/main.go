// Property B02: keys, signatures, encryption and hashes.
package main

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/vitelabs/go-vite/v2/common/types"
	vcrypto "github.com/vitelabs/go-vite/v2/crypto"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
)

func seed(i int) (d [32]byte) {
	switch {
	case i < 256: // one bit
		d[i/8] = 1 << uint(i%8)
	case i == 256: // zero
	case i == 257:
		for k := range d {
			d[k] = 0xff
		}
	default:
		s := blake2b.Sum256([]byte(fmt.Sprint("seed", i)))
		d = s
	}
	return
}

func seq(n, k int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + k*13 + 1)
	}
	return d
}

// verify asks every entry point and insists on one answer.
func verify(c *C, pub, msg, sig []byte) bool {
	p0, m0, s0 := string(pub), string(msg), string(sig)
	a := ed25519.Verify(pub, msg, sig)
	b := ed25519.VerifySig(pub, msg, sig) == nil
	d, err := vcrypto.VerifySig(pub, msg, sig)
	if a != b || a != d || err != nil {
		c.Fail("B02/verify-entry", "the verification functions disagree: %v %v %v (%v)", a, b, d, err)
	}
	if p0 != string(pub) || m0 != string(msg) || s0 != string(sig) {
		c.Fail("B02/verify-mutates", "verification changed its input")
	}
	c.AddStates(1)
	return a
}

func flip(b []byte, bit int) []byte {
	r := append([]byte{}, b...)
	r[bit/8] ^= 1 << uint(bit%8)
	return r
}

func le(n *big.Int) []byte { return ref.EdBytes(n) }

// badPanic reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func main() {
	Main(Suite{Property: "B02", QuickBudget: 100 * time.Second, Scenarios: func(tier string) []Scenario {
		quick := tier == "quick"
		keys, keyStep, flipKeys := 448, 28, 16
		if !quick {
			keys, keyStep, flipKeys = 4096, 32, 64
		}
		return []Scenario{
			{Name: "sign", Bound: fmt.Sprintf("%d seeds (zero, ones, every single bit, hashed), messages of 0 to 130 bytes: keys, addresses and signatures equal the reference and verify", keys), Body: func(c *C) {
				base := c.Choose(keys/keyStep) * keyStep
				for i := base; i < base+keyStep; i++ {
					d := seed(i)
					pub, priv, err := ed25519.GenerateKeyFromD(d)
					want := ref.EdPublic(d[:])
					if err != nil || !bytes.Equal(pub, want) || !bytes.Equal(priv, append(append([]byte{}, d[:]...), want...)) || !bytes.Equal(priv.PubByte(), want) || !bytes.Equal(priv.Public().(ed25519.PublicKey), want) {
						c.Fail("B02/key", "seed %x gives key %x/%x, expected public %x (%v)", d, []byte(priv), []byte(pub), want, err)
					}
					pub2, priv2, err := ed25519.GenerateKey(bytes.NewReader(append(append([]byte{}, d[:]...), 9, 9)))
					if err != nil || !bytes.Equal(pub2, pub) || !bytes.Equal(priv2, priv) {
						c.Fail("B02/key", "the same seed gives two keys")
					}
					if _, _, err := ed25519.GenerateKey(bytes.NewReader(d[:31])); err == nil {
						c.Fail("B02/key-short", "a key is made of 31 bytes of randomness")
					}
					ha := blakeN(20, want)
					a, pk, err := types.CreateAddressWithDeterministic(d)
					if err != nil || !bytes.Equal(pk, priv) || !bytes.Equal(a[:], append(ha, 0)) || types.PubkeyToAddress(pub) != a || types.PrikeyToAddress(priv) != a {
						c.Fail("B02/address", "address %x of seed %x", a[:], d)
					}
					if !ed25519.IsValidPrivateKey(priv) {
						c.Fail("B02/valid", "a generated key is called invalid")
					}
					for _, n := range []int{i % 131, (i * 37) % 131} {
						msg := seq(n, i)
						sig := ed25519.Sign(priv, msg)
						if w := ref.EdSign(d[:], want, msg); !bytes.Equal(sig, w) {
							c.Fail("B02/sign", "seed %x signs %x as %x, expected %x", d, msg, sig, w)
						}
						if !verify(c, pub, msg, sig) {
							c.Fail("B02/verify", "a signature made with seed %x is refused", d)
						}
						s2, err := priv.Sign(nil, msg, crypto.Hash(0))
						if err != nil || !bytes.Equal(s2, sig) {
							c.Fail("B02/sign", "signing through the signer interface differs")
						}
						if _, err := priv.Sign(nil, msg, crypto.SHA256); err == nil {
							c.Fail("B02/sign-prehashed", "a pre-hashed message is signed as if it were the message")
						}
						if n > 0 && verify(c, pub, msg[:n-1], sig) || verify(c, pub, append(append([]byte{}, msg...), 0), sig) {
							c.Fail("B02/forged", "a signature is accepted for a shortened or extended message")
						}
					}
				}
			}},
			{Name: "forge", Bound: fmt.Sprintf("every single-bit change of signature, key and message of %d signatures, s plus each multiple of the group order, wrong lengths: accepted exactly when the reference accepts", flipKeys), Body: func(c *C) {
				k := c.Choose(flipKeys)
				part := c.Choose(3)
				d := seed(300 + k)
				pub, priv, _ := ed25519.GenerateKeyFromD(d)
				msg := seq(5+k%9, k)
				sig := ed25519.Sign(priv, msg)
				chk := func(what string, p, m, s []byte) {
					want := bytes.Equal(p, pub) && bytes.Equal(m, msg) && bytes.Equal(s, sig) // a changed bit is never accepted
					if k == 0 {
						want = ref.EdVerify(p, m, s)
					}
					if got := verify(c, p, m, s); got != want {
						c.Fail("B02/forged", "%s: verification says %v, expected %v (key %x message %x signature %x)", what, got, want, p, m, s)
					}
				}
				switch part {
				case 0:
					for bit := 0; bit < 512; bit++ {
						chk(fmt.Sprint("signature bit ", bit), pub, msg, flip(sig, bit))
					}
				case 1:
					for bit := 0; bit < 256; bit++ {
						chk(fmt.Sprint("key bit ", bit), flip(pub, bit), msg, sig)
						if ed25519.IsValidPrivateKey(flip(priv, 256+bit)) || ed25519.IsValidPrivateKey(flip(priv, bit)) {
							c.Fail("B02/valid", "a private key whose halves do not belong together is called valid (bit %d)", bit)
						}
					}
					for n := 0; n < 70; n++ {
						if n != 64 && ed25519.IsValidPrivateKey(seq(n, 1)) {
							c.Fail("B02/valid", "a private key of %d bytes is called valid", n)
						}
						if n != 32 {
							if ok, err := vcrypto.VerifySig(seq(n, 1), msg, sig); ok || err == nil {
								c.Fail("B02/key-length", "a public key of %d bytes is accepted", n)
							}
							if ed25519.VerifySig(seq(n, 1), msg, sig) == nil {
								c.Fail("B02/key-length", "a public key of %d bytes is accepted", n)
							}
						}
					}
				case 2:
					for bit := 0; bit < 8*len(msg); bit++ {
						chk(fmt.Sprint("message bit ", bit), pub, flip(msg, bit), sig)
					}
					s := ref.EdLE(sig[32:])
					for i := 0; i < 16; i++ {
						x := new(big.Int).Add(s, new(big.Int).Mul(ref.EdL, big.NewInt(int64(i))))
						if x.BitLen() <= 256 {
							chk(fmt.Sprint("s plus the order times ", i), pub, msg, append(append([]byte{}, sig[:32]...), le(x)...))
						}
					}
					neg := append(append([]byte{}, sig[:32]...), le(new(big.Int).Sub(ref.EdL, s))...)
					chk("negated s", pub, msg, neg)
					for n := 0; n <= 130; n++ {
						x := append(append([]byte{}, sig...), sig...)
						if n > 128 {
							x = append(x, 0, 0)
						}
						if n != 64 && verify(c, pub, msg, x[:n]) {
							c.Fail("B02/signature-length", "a signature of %d bytes is accepted", n)
						}
					}
				}
			}},
			{Name: "points", Bound: "keys that are every small-order point, the identity, non-canonical and off-curve encodings, with s over every power of two, its neighbours, and values around the group order: accepted exactly when the reference accepts", Body: func(c *C) {
				var pubs [][]byte
				add := func(n *big.Int) {
					b := le(new(big.Int).And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1))))
					pubs = append(pubs, b, flip(b, 255))
				}
				for i := int64(0); i < 20; i++ {
					add(big.NewInt(i))
					add(new(big.Int).Add(ref.EdP, big.NewInt(i-10)))
				}
				for _, s := range []string{"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"} { // order 8
					b, _ := hex.DecodeString(s)
					add(ref.EdLE(b))
				}
				p := pubs[c.Choose(len(pubs))]
				msg := []byte("m")
				A := ref.EdDecode(p)
				if want, got := ref.EdMontgomery(p), ed25519.PublicKey(p).ToX25519Pk(); A != nil && !bytes.Equal(want, got) {
					c.Fail("B02/x25519-key", "encryption key of %x is %x, expected %x", p, got, want)
				}
				if A == nil {
					R := ref.EdEncode(ref.EdBase(big.NewInt(5)))
					if verify(c, p, msg, append(R, le(big.NewInt(5))...)) {
						c.Fail("B02/off-curve", "a key off the curve verifies a signature")
					}
					return
				}
				one := big.NewInt(1)
				var ss []*big.Int
				o := ref.EdTimes(big.NewInt(8), A)
				small := o.X.Sign() == 0 && o.Y.Cmp(o.Z) == 0
				for i := uint(0); i < 254; i++ {
					if quick && !small && i%32 != 0 {
						continue
					}
					x := new(big.Int).Lsh(one, i)
					ss = append(ss, x, new(big.Int).Sub(x, one), new(big.Int).Sub(ref.EdL, x))
				}
				for i := int64(-3); i < 4; i++ {
					ss = append(ss, new(big.Int).Add(ref.EdL, big.NewInt(i)))
				}
				for _, s := range ss {
					if s.Sign() < 0 || s.BitLen() > 256 {
						continue
					}
					// R = sB - hA depends on h, which depends on R: for the identity any s works, for a small-order key
					// some of the eight candidates do.
					T := ref.EdZero()
					for t := 0; t < 8; t++ {
						R := ref.EdEncode(ref.EdSum(ref.EdBase(s), T))
						sig := append(R, le(s)...)
						if got, want := verify(c, p, msg, sig), ref.EdVerify(p, msg, sig); got != want {
							c.Fail("B02/points", "key %x signature %x: verification says %v, expected %v", p, sig, got, want)
						}
						T = ref.EdSum(T, A)
						if bytes.Equal(ref.EdEncode(T), ref.EdEncode(ref.EdZero())) || !small || quick && t > 1 {
							break
						}
					}
				}
			}},
			{Name: "secret", Bound: "every ordered pair of 24 keys: both sides compute the same secret, and it is the X25519 secret of the derived keys; wrong lengths are refused", Body: func(c *C) {
				i := c.Choose(24)
				pa, sa, _ := ed25519.GenerateKeyFromD(seed(250 + i))
				sc, _ := ref.EdSecret(sa[:32])
				if !bytes.Equal(sa.ToX25519Sk(), le(sc)) {
					c.Fail("B02/x25519-key", "encryption key of a private key is %x", sa.ToX25519Sk())
				}
				if got, want := pa.ToX25519Pk(), ref.EdMontgomery(pa); !bytes.Equal(got, want) {
					c.Fail("B02/x25519-key", "encryption key of %x is %x, expected %x", []byte(pa), got, want)
				}
				for j := 0; j < 24; j++ {
					pb, sb, _ := ed25519.GenerateKeyFromD(seed(250 + j))
					x, e1 := vcrypto.X25519ComputeSecret(sa.ToX25519Sk(), pb.ToX25519Pk())
					y, e2 := vcrypto.X25519ComputeSecret(sb.ToX25519Sk(), pa.ToX25519Pk())
					k, _ := ecdh.X25519().NewPrivateKey(sa.ToX25519Sk())
					q, _ := ecdh.X25519().NewPublicKey(ref.EdMontgomery(pb))
					z, e3 := k.ECDH(q)
					if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(x, y) || !bytes.Equal(x, z) {
						c.Fail("B02/secret", "secret of %d and %d: %x, %x, expected %x (%v %v %v)", i, j, x, y, z, e1, e2, e3)
					}
					c.AddStates(1)
				}
				for n := 0; n < 40; n++ {
					_, e1 := vcrypto.X25519ComputeSecret(seq(n, 1), pa.ToX25519Pk())
					_, e2 := vcrypto.X25519ComputeSecret(sa.ToX25519Sk(), seq(n, 1))
					if (e1 == nil) != (n == 32) || (e2 == nil) != (n == 32) {
						c.Fail("B02/secret-length", "keys of %d bytes: %v %v", n, e1, e2)
					}
				}
			}},
			{Name: "cipher", Bound: "key lengths 0 to 40, texts of 0 to 100 bytes: decryption undoes encryption, every single-bit change of text, nonce or key is refused, no nonce repeats", Body: func(c *C) {
				n := []int{16, 24, 32}[c.Choose(3)]
				key := seq(n, 1)
				blk, _ := aes.NewCipher(key)
				g, _ := cipher.NewGCM(blk)
				seen := map[string]bool{}
				for l := 0; l <= 100; l++ {
					txt := seq(l, l)
					t0 := string(txt)
					ct, nonce, err := vcrypto.AesGCMEncrypt(key, txt)
					if err != nil || len(nonce) != 12 || string(txt) != t0 {
						c.Fail("B02/gcm", "encrypting %d bytes: %v", l, err)
					}
					if seen[string(nonce)] {
						c.Fail("B02/nonce", "a nonce is used twice")
					}
					seen[string(nonce)] = true
					if l > 0 && bytes.Contains(ct, txt) && l > 8 {
						c.Fail("B02/gcm-plain", "the text is readable in the encryption")
					}
					out, err := vcrypto.AesGCMDecrypt(key, ct, nonce)
					if err != nil || !bytes.Equal(out, txt) {
						c.Fail("B02/gcm", "decrypting %d bytes gives %x (%v), expected %x", l, out, err, txt)
					}
					if want := g.Seal(nil, nonce, txt, []byte("vite")); !bytes.Equal(ct, want) {
						c.Fail("B02/gcm-format", "encryption of %d bytes is not AES-GCM with the published additional data", l)
					}
					for bit := 0; bit < 8*len(ct); bit++ {
						if out, err := vcrypto.AesGCMDecrypt(key, flip(ct, bit), nonce); err == nil {
							c.Fail("B02/gcm-tampered", "a changed encryption decrypts to %x", out)
						}
					}
					for bit := 0; bit < 96; bit++ {
						if _, err := vcrypto.AesGCMDecrypt(key, ct, flip(nonce, bit)); err == nil {
							c.Fail("B02/gcm-tampered", "a changed nonce is accepted")
						}
					}
					for bit := 0; bit < 8*n; bit++ {
						if _, err := vcrypto.AesGCMDecrypt(flip(key, bit), ct, nonce); err == nil {
							c.Fail("B02/gcm-tampered", "a changed key is accepted")
						}
					}
					for cut := 0; cut < len(ct); cut++ {
						if _, err := vcrypto.AesGCMDecrypt(key, ct[:cut], nonce); err == nil {
							c.Fail("B02/gcm-tampered", "a truncated encryption is accepted")
						}
					}
					for k := 0; k < 3; k++ {
						iv := seq(16, k)
						if k == 2 {
							iv = bytes.Repeat([]byte{0xff}, 16)
						}
						x, err := vcrypto.AesCTRXOR(key, txt, iv)
						want := make([]byte, l)
						cipher.NewCTR(blk, iv).XORKeyStream(want, txt)
						y, err2 := vcrypto.AesCTRXOR(key, x, iv)
						if err != nil || err2 != nil || !bytes.Equal(x, want) || !bytes.Equal(y, txt) || string(txt) != t0 {
							c.Fail("B02/ctr", "CTR of %d bytes gives %x, expected %x", l, x, want)
						}
					}
					c.AddStates(1)
				}
				for l := 0; l <= 40; l++ {
					_, e1 := vcrypto.AesCTRXOR(seq(l, 0), []byte{1}, seq(16, 1))
					_, _, e2 := vcrypto.AesGCMEncrypt(seq(l, 0), []byte{1})
					_, e3 := vcrypto.AesGCMDecrypt(seq(l, 0), seq(17, 1), seq(12, 1))
					ok := l == 16 || l == 24 || l == 32
					if (e1 == nil) != ok || (e2 == nil) != ok || e3 == nil {
						c.Fail("B02/key-length", "a cipher key of %d bytes: %v %v %v", l, e1, e2, e3)
					}
				}
			}},
			{Name: "hash", Bound: "inputs of 0 to 300 bytes split at every place into up to three parts, digests of 1 to 64 bytes", Body: func(c *C) {
				l := c.Choose(301)
				d := seq(l, l)
				w256, w512 := blake2b.Sum256(d), blake2b.Sum512(d)
				kk := sha3.NewLegacyKeccak256()
				kk.Write(d)
				wk := kk.Sum(nil)
				for i := 0; i <= l; i++ {
					for _, parts := range [][][]byte{{d[:i], d[i:]}, {d[:i/2], d[i/2 : i], d[i:]}} {
						if !bytes.Equal(vcrypto.Hash256(parts...), w256[:]) || !bytes.Equal(vcrypto.Hash512(parts...), w512[:]) || !bytes.Equal(vcrypto.Keccak256(parts...), wk) {
							c.Fail("B02/hash", "hash of %d bytes split at %d", l, i)
						}
						x := types.DataListHash(parts...)
						if !bytes.Equal(x[:], w256[:]) {
							c.Fail("B02/hash", "hash of a list of %d bytes split at %d", l, i)
						}
						c.AddStates(1)
					}
				}
				x := types.DataHash(d)
				if !bytes.Equal(x[:], w256[:]) || !bytes.Equal(vcrypto.Hash256(d), w256[:]) {
					c.Fail("B02/hash", "hash of %d bytes", l)
				}
				for n := 1; n <= 64; n++ {
					if !bytes.Equal(vcrypto.Hash(n, d), blakeN(n, d)) || !bytes.Equal(vcrypto.Hash(n, d[:l/2], d[l/2:]), blakeN(n, d)) {
						c.Fail("B02/hash", "%d-byte hash of %d bytes", n, l)
					}
				}
			}},
			{Name: "text", Bound: "hex of every length 0 to 140, every single changed character of a key, clearing, randomness lengths", Body: func(c *C) {
				pub, priv, _ := ed25519.GenerateKeyFromD(seed(400))
				for n := 0; n <= 140; n++ {
					s := strings.Repeat("a", n)
					_, e1 := ed25519.HexToPublicKey(s)
					_, e2 := ed25519.HexToPrivateKey(s)
					if (e1 == nil) != (n == 64) || (e2 == nil) != (n == 128) {
						c.Fail("B02/hex-length", "hex keys of %d characters: %v %v", n, e1, e2)
					}
					if n < 100 {
						if a, b := vcrypto.GetEntropyCSPRNG(n), vcrypto.GetEntropyCSPRNG(n); len(a) != n || n >= 8 && bytes.Equal(a, b) {
							c.Fail("B02/entropy", "%d bytes of randomness: %x %x", n, a, b)
						}
					}
				}
				for i := 0; i < 128; i++ {
					for ch := 0; ch < 256; ch++ {
						b := []byte(priv.Hex())
						b[i] = byte(ch)
						w, e := hex.DecodeString(string(b))
						g, e2 := ed25519.HexToPrivateKey(string(b))
						if (e == nil) != (e2 == nil) || e == nil && !bytes.Equal(w, g) {
							c.Fail("B02/hex", "private key %s is read as %x (%v)", b, []byte(g), e2)
						}
						if i < 64 {
							b := []byte(pub.Hex())
							b[i] = byte(ch)
							w, e := hex.DecodeString(string(b))
							g, e2 := ed25519.HexToPublicKey(string(b))
							if (e == nil) != (e2 == nil) || e == nil && !bytes.Equal(w, g) {
								c.Fail("B02/hex", "public key %s is read as %x (%v)", b, []byte(g), e2)
							}
						}
						c.AddStates(1)
					}
				}
				p, q, err := ed25519.GenerateKey(nil)
				p2, _, _ := ed25519.GenerateKey(nil)
				a, r, err2 := types.CreateAddress()
				if err != nil || err2 != nil || bytes.Equal(p, p2) || !ed25519.IsValidPrivateKey(q) || types.PrikeyToAddress(r) != a {
					c.Fail("B02/key", "freshly generated keys repeat or are invalid")
				}
				if !panics(func() { ed25519.Sign(priv[:63], nil) }) || !panics(func() { ed25519.Verify(pub[:31], nil, nil) }) {
					c.Fail("B02/key-length", "keys of a wrong length are used")
				}
				pb := priv.PubByte()
				pb[3] ^= 1
				if !bytes.Equal(priv[32:], pub) {
					c.Fail("B02/key", "the public part of a private key is shared with its caller")
				}
				priv.Clear()
				if !bytes.Equal(priv, make([]byte, 64)) {
					c.Fail("B02/clear", "a cleared private key still holds %x", []byte(priv))
				}
			}},
		}
	}})
}

func blakeN(n int, d []byte) []byte {
	h, _ := blake2b.New(n, nil)
	h.Write(d)
	return h.Sum(nil)
}
