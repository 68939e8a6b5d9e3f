// Property W01: the wallet. Key derivation is compared with a derivation written from its definition; key files made by
// an independent encoder are read back, damaged in every byte and read again; every sequence of operations of the
// bound runs on a wallet over such files and is compared with a model of which stores are known and unlocked.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/tyler-smith/go-bip39"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"

	"github.com/vitelabs/go-vite/v2/common/config"
	walleterrors "github.com/vitelabs/go-vite/v2/common/errors"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/wallet"
	"github.com/vitelabs/go-vite/v2/wallet/entropystore"
	"github.com/vitelabs/go-vite/v2/wallet/hd-bip/derivation"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
	"github.com/vitelabs/go-vite/v2/zz_verif/ref"
)

// ---- the definition ----

func mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha512.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func derive(seed []byte, path []uint32) (key, chain []byte) {
	s := mac([]byte("ed25519 blake2b seed"), seed)
	for _, i := range path {
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], i|1<<31)
		s = mac(s[32:], []byte{0}, s[:32], b[:])
	}
	return s[:32], s[32:]
}

func words(entropy []byte) string {
	sum := sha256.Sum256(entropy)
	bits := ""
	for _, b := range entropy {
		bits += fmt.Sprintf("%08b", b)
	}
	bits += fmt.Sprintf("%08b", sum[0])[:len(entropy)/4]
	var l []string
	for i := 0; i < len(bits); i += 11 {
		n := 0
		for _, c := range bits[i : i+11] {
			n = 2*n + int(c-'0')
		}
		l = append(l, bip39.GetWordList()[n])
	}
	return strings.Join(l, " ")
}

func seedOf(entropy []byte) []byte {
	return pbkdf2.Key([]byte(words(entropy)), []byte("mnemonic"), 2048, 64, sha512.New)
}

var cache = map[string]types.Address{}

// account gives the address and the private seed at an index.
func account(entropy []byte, i uint32) (types.Address, []byte) {
	k, _ := derive(seedOf(entropy), []uint32{44, 666666, i})
	id := string(k)
	if _, ok := cache[id]; !ok {
		cache[id] = types.PubkeyToAddress(ref.EdPublic(k))
	}
	return cache[id], k
}

type file struct {
	name    string
	entropy []byte
	pass    string
}

func (f *file) json() []byte {
	salt := bytes.Repeat([]byte{7}, 32)
	key, err := scrypt.Key([]byte(f.pass), salt, 2, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	b, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(b)
	nonce := bytes.Repeat([]byte{0x9a}, 12)
	a, _ := account(f.entropy, 0)
	return []byte(fmt.Sprintf(`{"primaryAddress":"%s","crypto":{"ciphername":"aes-256-gcm","ciphertext":"%x","nonce":"%x","kdf":"scrypt","scryptparams":{"n":2,"r":8,"p":1,"keylen":32,"salt":"%x"}},"seedstoreversion":1,"timestamp":1600000000}`,
		a.Hex(), g.Seal(nil, nonce, f.entropy, []byte("vite")), nonce, salt))
}

func entropyOf(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*31 + seed
	}
	return b
}

var stores = []*file{
	{entropy: entropyOf(32, 1), pass: "one"},
	{entropy: entropyOf(16, 2), pass: "one"},
	{entropy: entropyOf(32, 3), pass: "two"},
}

// ---- derivation ----

var indices = []uint32{0, 1, 44, 666666, 1<<31 - 1}

func checkKey(c *C, what string, k *derivation.Key, err error, seed []byte, path []uint32) {
	wk, wc := derive(seed, path)
	if err != nil || !bytes.Equal(k.Key, wk) || !bytes.Equal(k.ChainCode, wc) {
		c.Fail("W01/derivation", "%s: %v (%v), should be %x %x", what, k, err, wk, wc)
	}
	c.AddTransitions(1)
}

func derivations(c *C) {
	seeds := [][]byte{seedOf(stores[0].entropy), {}, entropyOf(64, 200)}
	seed := seeds[c.Choose(len(seeds))]
	n := 1 + c.Choose(3)
	var path []uint32
	text := "m"
	for i := 0; i < n; i++ {
		p := indices[c.Choose(len(indices))]
		path = append(path, p)
		text += fmt.Sprintf("/%d'", p)
	}
	k, err := derivation.DeriveForPath(text, seed)
	checkKey(c, text, k, err, seed, path)
	wk, _ := derive(seed, path)
	if n < 3 {
		pub := ref.EdPublic(wk)
		got, err := k.PublicKey()
		if err != nil || !bytes.Equal(got, pub) {
			c.Fail("W01/derivation", "%s: public key %x (%v), should be %x", text, got, err, pub)
		}
		a, err := k.Address()
		if err != nil || *a != types.PubkeyToAddress(pub) {
			c.Fail("W01/derivation", "%s: address %v (%v)", text, a, err)
		}
		s, t, err := k.StringPair()
		if err != nil || s != hex.EncodeToString(wk) || t != a.Hex() {
			c.Fail("W01/derivation", "%s: pair %s %s (%v)", text, s, t, err)
		}
		r := k.RawSeed()
		priv, err := k.PrivateKey()
		if err != nil || !bytes.Equal(r[:], wk) || !bytes.Equal(priv, append(append([]byte(nil), wk...), pub...)) {
			c.Fail("W01/derivation", "%s: private key %x (%v)", text, priv, err)
		}
		sig, p, err := k.SignData([]byte(text))
		if err != nil || !bytes.Equal(p, pub) || !ref.EdVerify(pub, []byte(text), sig) {
			c.Fail("W01/derivation", "%s: signature %x by %x (%v)", text, sig, p, err)
		}
	}
	if n == 1 {
		k, err := derivation.DeriveWithIndex(path[0], seed)
		checkKey(c, fmt.Sprintf("index %d", path[0]), k, err, seed, []uint32{44, 666666, path[0]})
		a, err := derivation.GetPrimaryAddress(seed)
		wk, _ := derive(seed, []uint32{44, 666666, 0})
		if err != nil || *a != types.PubkeyToAddress(ref.EdPublic(wk)) {
			c.Fail("W01/derivation", "the primary address is %v (%v)", a, err)
		}
	}
	c.State()
}

// badPaths deletes, inserts and replaces every character of some paths.
func badPaths(c *C) {
	bases := []string{"m/44'/666666'/0'", "m/0'", "m/2147483647'/1'"}
	base := bases[c.Choose(len(bases))]
	seed := seedOf(stores[0].entropy)
	try := func(p string) {
		var path []uint32
		ok := strings.HasPrefix(p, "m/")
		for _, s := range strings.Split(p, "/")[1:] {
			n, digits := uint64(0), 0
			t := strings.TrimSuffix(s, "'")
			ok = ok && t != s && t != ""
			for _, ch := range t {
				if ch < '0' || ch > '9' || digits > 12 {
					ok = false
				} else {
					n = 10*n + uint64(ch-'0')
					digits++
				}
			}
			ok = ok && n < 1<<31
			path = append(path, uint32(n))
		}
		k, err := derivation.DeriveForPath(p, seed)
		if (err == nil) != ok {
			c.Fail("W01/path", "the path %q gives %v (%v)", p, k, err)
		}
		if ok {
			checkKey(c, p, k, err, seed, path)
		}
		c.AddTransitions(1)
	}
	const alphabet = "m/'0944 x-+.M\n"
	for i := 0; i <= len(base); i++ {
		for _, ch := range alphabet {
			try(base[:i] + string(ch) + base[i:])
			if i < len(base) {
				try(base[:i] + string(ch) + base[i+1:])
			}
		}
		if i < len(base) {
			try(base[:i] + base[i+1:])
			try(base[:i])
		}
	}
	for _, s := range []string{"m/2147483648'", "m/4294967295'", "m/4294967296'", "m/18446744073709551616'", "m/1''", "m/1'/", "", "m", "m/", "/", "M/1'", "m/1", "m/1h", "44'/1'"} {
		try(s)
	}
	c.State()
}

// ---- key files ----

func filesRead(c *C, part, parts int) {
	l := []*file{stores[0], {entropy: entropyOf(16, 9), pass: ""}, {entropy: entropyOf(20, 9), pass: "é\x00"}, {entropy: entropyOf(24, 0), pass: " "}, {entropy: make([]byte, 28), pass: "p"}}
	f := l[part%len(l)]
	good := f.json()
	e, err := entropystore.DecryptEntropy(good, f.pass)
	if err != nil || !bytes.Equal(e, f.entropy) {
		c.Fail("W01/read", "the file %s gives %x (%v), should be %x", good, e, err, f.entropy)
	}
	for _, p := range []string{f.pass + " ", strings.ToUpper(f.pass) + "x", f.pass + f.pass + "y", "two", f.pass + "\x01"} {
		if e, err := entropystore.DecryptEntropy(good, p); err == nil {
			c.Fail("W01/passphrase", "the passphrase %q opens a file of %q: %x", p, f.pass, e)
		}
	}
	try := func(what string, b []byte) {
		e, err := entropystore.DecryptEntropy(b, f.pass)
		if err == nil && !bytes.Equal(e, f.entropy) {
			c.Fail("W01/damaged", "%s: the file %s gives %x, should be %x", what, b, e, f.entropy)
		}
		c.AddTransitions(1)
		if err == nil {
			c.Count("damages without effect", 1)
		}
	}
	skip := bytes.Index(good, []byte(`"n":2`)) + 4 // the cost is not enlarged: it would only take time and memory
	for i := range good {
		for _, v := range []byte{'0', '1', '9', 'f', 'F', 'g', '"', ' ', ',', 0, good[i] ^ 1, good[i] ^ 0x20} {
			if i == skip && v == '9' || v == good[i] {
				continue
			}
			b := append([]byte(nil), good...)
			b[i] = v
			try(fmt.Sprintf("byte %d set to %q", i, v), b)
		}
		try(fmt.Sprintf("cut at %d", i), good[:i])
		try(fmt.Sprintf("without byte %d", i), append(append([]byte(nil), good[:i]...), good[i+1:]...))
	}
	c.State()
	_ = parts
}

// fields replaces whole fields.
func fields(c *C) {
	f := stores[0]
	other := stores[2]
	a, _ := account(other.entropy, 0)
	a1, _ := account(f.entropy, 1)
	me, _ := account(f.entropy, 0)
	hexes := []string{"", "00", "0", "zz", strings.Repeat("00", 11), strings.Repeat("00", 12), strings.Repeat("00", 13), strings.Repeat("00", 16), strings.Repeat("ab", 48), strings.Repeat("ab", 15)}
	nums := []interface{}{-1, 0, 1, 2, 3, 4, 16, 24, 31, 32, 33, 64, "1", nil, 1.5, 1 << 20}
	type edit struct {
		path string
		vals []interface{}
	}
	var es []edit
	strs := func(p string, l ...string) {
		e := edit{path: p}
		for _, s := range l {
			e.vals = append(e.vals, s)
		}
		e.vals = append(e.vals, nil, 1, true, []int{1})
		es = append(es, e)
	}
	strs("primaryAddress", "", a.Hex(), a1.Hex(), strings.ToUpper(me.Hex()), me.Hex()[:54], me.Hex()+"0", hex.EncodeToString(me.Bytes()))
	strs("crypto.ciphername", "", "aes-256-GCM", "aes-128-gcm", "aes-256-ctr")
	strs("crypto.ciphertext", hexes...)
	strs("crypto.nonce", hexes...)
	strs("crypto.kdf", "", "pbkdf2", "Scrypt")
	strs("crypto.scryptparams.salt", hexes...)
	for _, p := range []string{"crypto.scryptparams.r", "crypto.scryptparams.p", "crypto.scryptparams.keylen", "crypto.scryptparams.n", "seedstoreversion", "timestamp"} {
		es = append(es, edit{path: p, vals: nums})
	}
	es = append(es, edit{path: "crypto", vals: []interface{}{nil, map[string]int{}, 1}}, edit{path: "crypto.scryptparams", vals: []interface{}{nil, map[string]int{}}})
	apply := func(m map[string]interface{}, path string, v interface{}) {
		p := strings.Split(path, ".")
		for _, k := range p[:len(p)-1] {
			n, ok := m[k].(map[string]interface{})
			if !ok {
				return
			}
			m = n
		}
		m[p[len(p)-1]] = v
	}
	e1 := es[c.Choose(len(es))]
	for _, v1 := range e1.vals {
		for _, e2 := range es {
			for _, v2 := range e2.vals {
				if v2 == 1<<20 && v1 == 1<<20 || v1 == 1<<20 && e2.path == e1.path {
					continue
				}
				m := map[string]interface{}{}
				if err := json.Unmarshal(f.json(), &m); err != nil {
					panic(err)
				}
				apply(m, e1.path, v1)
				apply(m, e2.path, v2)
				p, _ := m["crypto"].(map[string]interface{})
				if p != nil {
					p, _ = p["scryptparams"].(map[string]interface{})
				}
				if p != nil && (p["n"] == 1<<20 || p["r"] == 1<<20 || p["p"] == 1<<20) {
					continue // costly, and refused or useless in the same way as smaller values
				}
				b, _ := json.Marshal(m)
				got, err := entropystore.DecryptEntropy(b, f.pass)
				if err == nil && !bytes.Equal(got, f.entropy) {
					c.Fail("W01/damaged", "the file %s gives %x, should be %x", b, got, f.entropy)
				}
				if err == nil && (m["seedstoreversion"] != 1.0 && m["seedstoreversion"] != 1 || m["primaryAddress"] != me.Hex()) {
					c.Fail("W01/accepted", "the file %s is accepted", b)
				}
				if q, ok := m["crypto"].(map[string]interface{}); err == nil && (!ok || q["ciphername"] != "aes-256-gcm" || q["kdf"] != "scrypt") {
					c.Fail("W01/accepted", "the file %s is accepted", b)
				}
				c.AddTransitions(1)
			}
		}
	}
	c.State()
}

// ---- storing ----

func storing(c *C) {
	sizes := []int{16, 32, 24}
	passes := []string{"", "secret", "pass\x00word é"}
	f := &file{entropy: entropyOf(sizes[c.Choose(3)], 5), pass: passes[c.Choose(3)]}
	dir := MkTemp("w01")
	defer os.RemoveAll(dir)
	mgr, err := entropystore.StoreNewEntropy(dir, words(f.entropy), f.pass, 2)
	if err != nil {
		c.Fail("W01/store", "%v", err)
	}
	a0, _ := account(f.entropy, 0)
	name := filepath.Join(dir, a0.Hex())
	if mgr.GetPrimaryAddr() != a0 || mgr.GetEntropyStoreFile() != name {
		c.Fail("W01/store", "stored as %v in %s", mgr.GetPrimaryAddr(), mgr.GetEntropyStoreFile())
	}
	check := func(f *file) {
		l, _ := os.ReadDir(dir)
		if len(l) != 1 || l[0].Name() != a0.Hex() {
			c.Fail("W01/store", "the directory holds %v", l)
		}
		b, err := os.ReadFile(name)
		if err != nil {
			c.Fail("W01/store", "%v", err)
		}
		// the file, read by its definition
		var k struct {
			PrimaryAddress   string
			SeedStoreVersion int
			Crypto           struct {
				CipherName, CipherText, Nonce, KDF string
				ScryptParams                       struct {
					N, R, P, KeyLen int
					Salt            string
				}
			}
		}
		if err := json.Unmarshal(b, &k); err != nil {
			c.Fail("W01/store", "%v: %s", err, b)
		}
		salt, _ := hex.DecodeString(k.Crypto.ScryptParams.Salt)
		nonce, _ := hex.DecodeString(k.Crypto.Nonce)
		text, _ := hex.DecodeString(k.Crypto.CipherText)
		if k.PrimaryAddress != a0.Hex() || k.SeedStoreVersion != 1 || k.Crypto.CipherName != "aes-256-gcm" || k.Crypto.KDF != "scrypt" || k.Crypto.ScryptParams.N < 1<<18 || len(salt) < 32 || len(nonce) != 12 || k.Crypto.ScryptParams.KeyLen != 32 {
			c.Fail("W01/store", "the file is %s", b)
		}
		key, err := scrypt.Key([]byte(f.pass), salt, k.Crypto.ScryptParams.N, k.Crypto.ScryptParams.R, k.Crypto.ScryptParams.P, 32)
		if err != nil {
			c.Fail("W01/store", "%v", err)
		}
		x, _ := aes.NewCipher(key)
		g, _ := cipher.NewGCM(x)
		e, err := g.Open(nil, nonce, text, []byte("vite"))
		if err != nil || !bytes.Equal(e, f.entropy) {
			c.Fail("W01/store", "the file %s decrypts to %x (%v), should be %x", b, e, err, f.entropy)
		}
	}
	check(f)
	if err := mgr.Unlock(f.pass + "x"); err == nil || mgr.IsUnlocked() {
		c.Fail("W01/passphrase", "a wrong passphrase unlocks")
	}
	if m, err := mgr.ExtractMnemonic(f.pass); err != nil || m != words(f.entropy) {
		c.Fail("W01/store", "the mnemonic is %s (%v), should be %s", m, err, words(f.entropy))
	}
	if c.Choose(2) == 1 {
		// stored again under another passphrase, the file is replaced
		c.Op("stored again")
		g := &file{entropy: f.entropy, pass: f.pass + "2"}
		before, _ := os.ReadFile(name)
		if _, err := entropystore.StoreNewEntropy(dir, words(f.entropy), g.pass, 2); err != nil {
			c.Fail("W01/store", "%v", err)
		}
		after, _ := os.ReadFile(name)
		if bytes.Equal(before, after) {
			c.Fail("W01/store", "the file is not replaced")
		}
		check(g)
		if err := mgr.Unlock(f.pass); err == nil {
			c.Fail("W01/passphrase", "the old passphrase unlocks")
		}
		if err := mgr.Unlock(g.pass); err != nil || !mgr.IsUnlocked() {
			c.Fail("W01/store", "%v", err)
		}
	}
	c.State()
}

// recovering puts a mnemonic into a wallet and starts the wallet again.
func recovering(c *C) {
	dir := MkTemp("w01")
	defer os.RemoveAll(dir)
	max := uint32(3)
	w := wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: max})
	if err := w.Start(); err != nil {
		c.Fail("W01/start", "%v", err)
	}
	var f *file
	var em *entropystore.Manager
	if c.Choose(2) == 0 {
		c.Op("recover")
		f = &file{entropy: entropyOf(32, 77), pass: "pw"}
		var err error
		if em, err = w.RecoverEntropyStoreFromMnemonic(words(f.entropy), f.pass); err != nil {
			c.Fail("W01/recover", "%v", err)
		}
		for _, bad := range []string{"", "abandon", words(f.entropy) + " abandon", strings.Replace(words(f.entropy), " ", " zzz ", 1)} {
			if _, err := w.RecoverEntropyStoreFromMnemonic(bad, f.pass); err == nil {
				c.Fail("W01/recover", "the mnemonic %q is accepted", bad)
			}
		}
	} else {
		c.Op("new")
		m, e, err := w.NewMnemonicAndEntropyStore("pw")
		if err != nil {
			c.Fail("W01/recover", "%v", err)
		}
		ent, err := bip39.EntropyFromMnemonic(m)
		if err != nil || len(ent) != 32 {
			c.Fail("W01/recover", "the new mnemonic is %s (%v)", m, err)
		}
		f, em = &file{entropy: ent, pass: "pw"}, e
	}
	a0, _ := account(f.entropy, 0)
	f.name = filepath.Join(dir, a0.Hex())
	if em.GetEntropyStoreFile() != f.name || em.GetPrimaryAddr() != a0 {
		c.Fail("W01/recover", "stored in %s", em.GetEntropyStoreFile())
	}
	for round := 0; round < 2; round++ {
		if w.IsUnlocked(f.name) {
			c.Fail("W01/recover", "the store is unlocked without its passphrase")
		}
		if err := w.Unlock(a0.Hex(), f.pass); err != nil {
			c.Fail("W01/recover", "%v", err)
		}
		for i := uint32(0); i < max+2; i++ {
			a, _ := account(f.entropy, i)
			if w.GlobalCheckAddrUnlock(a) != (i < max) {
				c.Fail("W01/search", "round %d: the address of index %d is found: %v, with a search limit of %d", round, i, w.GlobalCheckAddrUnlock(a), max)
			}
		}
		if m, err := w.ExtractMnemonic(a0.Hex(), f.pass); err != nil || m != words(f.entropy) {
			c.Fail("W01/recover", "the mnemonic is %s (%v)", m, err)
		}
		w.Stop()
		w = wallet.New(&config.Wallet{DataDir: dir, MaxSearchIndex: max})
		if err := w.Start(); err != nil {
			c.Fail("W01/start", "%v", err)
		}
	}
	c.State()
}

// ---- the wallet over time ----

const limit = 2

type world struct {
	c        *C
	dir      string
	w        *wallet.Manager
	files    []*file
	present  []bool
	known    []bool
	unlocked []bool
	running  bool
	events   []string
	want     []string
	subs     []int
	rel      bool
}

func (w *world) lis(id int) func(e entropystore.UnlockEvent) {
	return func(e entropystore.UnlockEvent) {
		w.events = append(w.events, fmt.Sprintf("%d %s %v %v", id, filepath.Base(e.EntropyStoreFile), e.PrimaryAddr, e.Unlocked()))
	}
}

func (w *world) emit(i int, unlocked bool) {
	for id, s := range w.subs {
		if s >= 0 {
			a, _ := account(w.files[i].entropy, 0)
			w.want = append(w.want, fmt.Sprintf("%d %s %v %v", id, w.files[i].name, a, unlocked))
		}
	}
}

func (w *world) lock(i int) {
	w.unlocked[i] = false
	w.emit(i, false)
}

func (w *world) path(i int) string {
	if w.rel {
		return w.files[i].name
	}
	return filepath.Join(w.dir, w.files[i].name)
}

func (w *world) put(i int) {
	if err := os.WriteFile(filepath.Join(w.dir, w.files[i].name), w.files[i].json(), 0o600); err != nil {
		panic(err)
	}
	w.present[i] = true
}

func (w *world) start() {
	w.w = wallet.New(&config.Wallet{DataDir: w.dir, MaxSearchIndex: limit})
	w.subs = nil
	if err := w.w.Start(); err != nil {
		w.c.Fail("W01/start", "%v", err)
	}
	for i := range w.files {
		w.known[i], w.unlocked[i] = w.present[i], false
	}
}

func (w *world) step() {
	c := w.c
	var l []func()
	for i := range w.files {
		i := i
		add := func(name string, f func()) {
			l = append(l, func() { c.Op("%s %d", name, i); f() })
		}
		for _, right := range []bool{true, false} {
			right := right
			add(fmt.Sprintf("unlock (right %v)", right), func() {
				p := w.files[i].pass
				if !right {
					p = map[string]string{"one": "two", "two": "one"}[p]
				}
				err := w.w.Unlock(w.path(i), p)
				ok := right && w.known[i] && w.present[i]
				if (err == nil) != ok {
					c.Fail("W01/unlock", "unlocking %d: %v", i, err)
				}
				if ok {
					w.unlocked[i] = true
					w.emit(i, true)
				}
			})
		}
		add("lock", func() {
			err := w.w.Lock(w.path(i))
			if (err == nil) != w.known[i] {
				c.Fail("W01/lock", "locking %d: %v", i, err)
			}
			if w.known[i] {
				w.lock(i)
			}
		})
		add("remove", func() {
			w.w.RemoveEntropyStore(w.path(i))
			if w.known[i] {
				w.lock(i)
				w.known[i] = false
			}
		})
		if !w.known[i] {
			add("add", func() {
				err := w.w.AddEntropyStore(w.path(i))
				if (err == nil) != w.present[i] {
					c.Fail("W01/add", "adding %d: %v", i, err)
				}
				w.known[i] = w.present[i]
			})
		}
		if w.present[i] {
			add("delete the file of", func() {
				os.Remove(filepath.Join(w.dir, w.files[i].name))
				w.present[i] = false
			})
		}
	}
	l = append(l, func() {
		c.Op("refresh")
		w.w.RefreshCache()
		for i := range w.files {
			if w.known[i] && !w.present[i] {
				w.lock(i)
				w.known[i] = false
			}
		}
	}, func() {
		c.Op("restart")
		for i := range w.files {
			if w.known[i] {
				w.lock(i)
			}
		}
		w.w.Stop()
		w.start()
	})
	if len(w.subs) < 2 {
		l = append(l, func() {
			c.Op("listen")
			w.subs = append(w.subs, w.w.AddLockEventListener(w.lis(len(w.subs))))
			for i, s := range w.subs[:len(w.subs)-1] {
				if s == w.subs[len(w.subs)-1] {
					c.Fail("W01/listener", "listeners %d and %d share the number %d", i, len(w.subs)-1, s)
				}
			}
		})
	}
	if len(w.subs) > 0 && w.subs[0] >= 0 {
		l = append(l, func() {
			c.Op("stop listening")
			w.w.RemoveUnlockChangeChannel(w.subs[0])
			w.subs[0] = -1
		})
	}
	l[c.Choose(len(l))]()
}

func (w *world) check() {
	c := w.c
	sort.Strings(w.events)
	sort.Strings(w.want)
	if fmt.Sprint(w.events) != fmt.Sprint(w.want) {
		c.Fail("W01/events", "the events are %v, should be %v", w.events, w.want)
	}
	w.events, w.want = nil, nil
	var known []string
	for i := range w.files {
		if w.known[i] {
			known = append(known, filepath.Join(w.dir, w.files[i].name))
		}
	}
	got := w.w.ListAllEntropyFiles()
	sort.Strings(got)
	sort.Strings(known)
	if fmt.Sprint(got) != fmt.Sprint(known) {
		c.Fail("W01/list", "the stores are %v, should be %v", got, known)
	}
	var std []string
	for i := range w.files {
		if w.present[i] {
			std = append(std, filepath.Join(w.dir, w.files[i].name))
		}
	}
	sort.Strings(std)
	if l, err := w.w.ListEntropyFilesInStandardDir(); err != nil || fmt.Sprint(l) != fmt.Sprint(std) {
		c.Fail("W01/list", "the files are %v (%v), should be %v", l, err, std)
	}
	msg := []byte("message")
	for i, f := range w.files {
		p := w.path(i)
		if w.w.IsUnlocked(p) != w.unlocked[i] {
			c.Fail("W01/unlocked", "store %d is unlocked: %v, should be %v", i, w.w.IsUnlocked(p), w.unlocked[i])
		}
		em, err := w.w.GetEntropyStoreManager(p)
		if (err == nil) != w.known[i] {
			c.Fail("W01/list", "store %d: %v", i, err)
		}
		for n := uint32(0); n <= limit; n++ {
			a, key := account(f.entropy, n)
			found := w.unlocked[i] && n < limit
			if w.w.GlobalCheckAddrUnlock(a) != found {
				c.Fail("W01/signing", "address %d of store %d is usable: %v, should be %v", n, i, !found, found)
			}
			path, k, idx, err := w.w.GlobalFindAddr(a)
			if (err == nil) != found || found && (path != filepath.Join(w.dir, f.name) || idx != n || !bytes.Equal(k.Key, key)) {
				c.Fail("W01/signing", "address %d of store %d is found in %s with index %d (%v)", n, i, path, idx, err)
			}
			acc, err := w.w.Account(a)
			if (err == nil) != found {
				c.Fail("W01/signing", "account %d of store %d: %v, unlocked %v", n, i, err, found)
			}
			if found {
				sig, pub, err := acc.Sign(msg)
				if err != nil || acc.Address() != a || types.PubkeyToAddress(pub) != a || acc.Verify(pub, msg, sig) != nil || acc.Verify(pub, []byte("other"), sig) == nil {
					c.Fail("W01/signing", "account %d of store %d signs as %v (%v)", n, i, acc.Address(), err)
				}
			}
			// at a given index, whatever the search limit
			err = w.w.MatchAddress(p, a, n)
			if (err == nil) != w.unlocked[i] || w.w.MatchAddress(p, a, n+1) == nil {
				c.Fail("W01/index", "address %d of store %d matches its index: %v, unlocked %v", n, i, err, w.unlocked[i])
			}
			for m := uint32(0); m <= limit; m++ {
				if m != n {
					if err := w.w.MatchAddress(p, a, m); err == nil {
						c.Fail("W01/index", "address %d of store %d matches index %d", n, i, m)
					}
					if _, err := w.w.AccountAtIndex(p, a, m); err == nil {
						c.Fail("W01/index", "address %d of store %d is the account at index %d", n, i, m)
					}
				}
			}
			at, err := w.w.AccountAtIndex(p, a, n)
			if (err == nil) != w.unlocked[i] || err == nil && at.Address() != a {
				c.Fail("W01/index", "account at %d of store %d: %v, unlocked %v", n, i, err, w.unlocked[i])
			}
			if em != nil {
				sig, pub, err := em.SignData(a, msg)
				if (err == nil) != found || !w.unlocked[i] && err != walleterrors.ErrLocked || found && (types.PubkeyToAddress(pub) != a || acc.Verify(pub, msg, sig) != nil) {
					c.Fail("W01/signing", "store %d signs for address %d: %v, unlocked %v", i, n, err, w.unlocked[i])
				}
				if em.IsAddrUnlocked(a) != found {
					c.Fail("W01/signing", "address %d of store %d: %v", n, i, !found)
				}
				priv, err := em.GetPrivateKey(a)
				if (err == nil) != found || found && !bytes.Equal(priv[:32], key) {
					c.Fail("W01/signing", "the private key of address %d of store %d: %v", n, i, err)
				}
				_, k, err := em.DeriveForIndexPath(n)
				if (err == nil) != w.unlocked[i] || err == nil && !bytes.Equal(k.Key, key) {
					c.Fail("W01/index", "key %d of store %d: %v", n, i, err)
				}
				for _, pass := range []string{"one", "two"} {
					ok := w.present[i] && pass == f.pass
					_, k, err := em.DeriveForIndexPathWithPassphrase(n, pass)
					if (err == nil) != ok || ok && !bytes.Equal(k.Key, key) {
						c.Fail("W01/passphrase", "key %d of store %d with passphrase %q: %v", n, i, pass, err)
					}
					sig, pub, err := em.SignDataWithPassphrase(a, pass, msg)
					if (err == nil) != (ok && n < limit) || err == nil && (types.PubkeyToAddress(pub) != a || !ref.EdVerify(pub, msg, sig)) {
						c.Fail("W01/passphrase", "store %d signs for address %d with passphrase %q: %v", i, n, pass, err)
					}
				}
				if em.IsUnlocked() != w.unlocked[i] {
					c.Fail("W01/unlocked", "a question with the passphrase unlocked store %d", i)
				}
			}
		}
		if em != nil {
			l, err := em.ListAddress(1, 3)
			a1, _ := account(f.entropy, 1)
			a2, _ := account(f.entropy, 2)
			if (err == nil) != w.unlocked[i] || err == nil && fmt.Sprint(l) != fmt.Sprint([]types.Address{a1, a2}) {
				c.Fail("W01/index", "the addresses of store %d are %v (%v)", i, l, err)
			}
			if l, err := em.ListAddress(2, 1); err == nil {
				c.Fail("W01/index", "addresses 2 to 1 are %v", l)
			}
		}
		// over all stores with a passphrase
		a, key := account(f.entropy, 1)
		for _, pass := range []string{"one", "two", "three"} {
			ok := w.known[i] && w.present[i] && pass == f.pass
			lost := false // a known store without its file makes the search fail
			for j := range w.files {
				lost = lost || w.known[j] && !w.present[j]
			}
			if lost {
				continue
			}
			path, k, idx, err := w.w.GlobalFindAddrWithPassphrase(a, pass)
			if (err == nil) != ok || ok && (path != filepath.Join(w.dir, f.name) || idx != 1 || !bytes.Equal(k.Key, key)) {
				c.Fail("W01/passphrase", "address 1 of store %d is found with passphrase %q in %s: %v", i, pass, path, err)
			}
			acc, err := w.w.AccountSearch(nil, a, pass)
			if (err == nil) != ok || ok && acc.Address() != a {
				c.Fail("W01/passphrase", "account 1 of store %d with passphrase %q: %v", i, pass, err)
			}
		}
	}
	c.State()
}

// use signs with what is unlocked: what was used once must not stay usable
func (w *world) use() {
	for i, f := range w.files {
		a, _ := account(f.entropy, 0)
		w.w.GlobalCheckAddrUnlock(a)
		w.w.GlobalFindAddr(a)
		w.w.Account(a)
		w.w.AccountAtIndex(w.path(i), a, 0)
		if em, err := w.w.GetEntropyStoreManager(w.path(i)); err == nil {
			em.SignData(a, []byte("x"))
			em.GetPrivateKey(a)
			em.DeriveForIndexPath(0)
			em.ListAddress(0, 1)
		}
	}
}

func life(depth, files int, rel bool) Scenario {
	name := "life"
	if rel {
		name = "life-relative"
	}
	return Scenario{Name: name, Bound: fmt.Sprintf("every sequence of %d operations on a wallet of %d stores", depth, files), Body: func(c *C) {
		w := &world{c: c, dir: MkTemp("w01"), rel: rel}
		defer os.RemoveAll(w.dir)
		for i, f := range stores[len(stores)-files:] {
			a, _ := account(f.entropy, 0)
			g := *f
			g.name = a.Hex()
			w.files, w.present, w.known, w.unlocked = append(w.files, &g), append(w.present, false), append(w.known, false), append(w.unlocked, false)
			w.put(i)
		}
		// what else may lie in the directory
		for n, b := range map[string]string{".hidden": string(w.files[0].json()), "backup~": string(w.files[0].json()), "note": "text", "empty": "", "big": string(w.files[0].json()) + strings.Repeat(" ", 3000)} {
			os.WriteFile(filepath.Join(w.dir, n), []byte(b), 0o600)
		}
		os.Mkdir(filepath.Join(w.dir, "dir"), 0o700)
		w.start()
		for i := 1; i <= depth; i++ {
			w.step()
			if c.Fresh() || i == depth {
				w.check()
			} else {
				w.events, w.want = nil, nil
				w.use()
			}
		}
	}}
}

func main() {
	Silence()
	for i, e := range []*file{stores[0], stores[1]} {
		s, err := bip39.NewMnemonic(e.entropy)
		if err != nil || s != words(e.entropy) || !bytes.Equal(bip39.NewSeed(s, ""), seedOf(e.entropy)) {
			panic(fmt.Sprint(i, err))
		}
	}
	Main(Suite{Property: "W01", QuickBudget: 200 * time.Second, ThoroughBudget: 40 * time.Minute, Scenarios: func(tier string) []Scenario {
		d := 3
		if tier == "thorough" {
			d = 4
		}
		return []Scenario{
			{Name: "recovering", Bound: "a recovered and a new mnemonic, each over two restarts", Timeout: 5 * time.Minute, Body: recovering},
			{Name: "storing", Bound: "3 entropy sizes, 3 passphrases, stored once or twice", Timeout: 5 * time.Minute, Body: storing},
			life(d, 2, false),
			life(d-1, 2, true),
			{Name: "derivation", Bound: "3 seeds, every path of up to 3 of 5 boundary indices", Body: derivations},
			{Name: "paths", Bound: "every deleted, inserted and replaced character of 3 paths", Body: badPaths},
			{Name: "damaged-files", Bound: "every byte changed to 12 values, removed, and every cut, of 5 files; wrong passphrases", Body: func(c *C) { filesRead(c, c.Choose(5), 5) }},
			{Name: "fields", Bound: "every pair of fields replaced by boundary values", Body: fields},
		}
	}})
}
