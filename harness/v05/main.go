// Property V05: the ABI codec of contract calls, results, events and stored variables. All argument lists of the bound
// are encoded and decoded, and every cut and every boundary value in every word of an encoding is decoded; both sides
// are compared with an encoder and a decoder written again from the definition of the encoding.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"golang.org/x/crypto/blake2b"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/vm/abi"
	. "github.com/vitelabs/go-vite/v2/zz_verif/explore"
)

// ---- the definition ----

type kind int

const (
	kUint kind = iota
	kInt
	kBool
	kLeft  // address, gid, tokenId: right aligned
	kFixed // bytesN: left aligned
	kBytes
	kString
	kArray
	kSlice
)

type typ struct {
	name string
	k    kind
	n    int // bits, bytes or elements
	elem *typ
	vals []interface{}
}

func (t *typ) dynamic() bool { return t.k == kBytes || t.k == kString || t.k == kSlice }

func (t *typ) words() int {
	if t.k == kArray {
		return t.n
	}
	return 1
}

func pow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func word(b *big.Int) []byte {
	x := new(big.Int).Mod(b, pow(256))
	r := make([]byte, 32)
	c := x.Bytes()
	copy(r[32-len(c):], c)
	return r
}

// number gives the value of a Go number.
func number(v interface{}) *big.Int {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr:
		return v.(*big.Int)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(r.Int())
	}
	return new(big.Int).SetUint64(r.Uint())
}

func raw(v interface{}) []byte {
	r := reflect.ValueOf(v)
	b := make([]byte, r.Len())
	reflect.Copy(reflect.ValueOf(b), r)
	return b
}

func body(t *typ, v interface{}) []byte {
	switch t.k {
	case kUint, kInt:
		return word(number(v))
	case kBool:
		if v.(bool) {
			return word(big.NewInt(1))
		}
		return word(big.NewInt(0))
	case kLeft:
		return append(make([]byte, 32-t.n), raw(v)...)
	case kFixed:
		return append(raw(v), make([]byte, 32-t.n)...)
	case kString, kBytes:
		var b []byte
		if t.k == kString {
			b = []byte(v.(string))
		} else {
			b = v.([]byte)
		}
		r := append(word(big.NewInt(int64(len(b)))), b...)
		for len(r)%32 != 0 {
			r = append(r, 0)
		}
		return r
	}
	var r []byte
	l := reflect.ValueOf(v)
	if t.k == kSlice {
		r = word(big.NewInt(int64(l.Len())))
	}
	for i := 0; i < l.Len(); i++ {
		r = append(r, body(t.elem, l.Index(i).Interface())...)
	}
	return r
}

func encode(ts []*typ, vs []interface{}) []byte {
	head := 0
	for _, t := range ts {
		head += 32 * t.words()
	}
	var a, b []byte
	for i, t := range ts {
		x := body(t, vs[i])
		if t.dynamic() {
			a = append(a, word(big.NewInt(int64(head+len(b))))...)
			b = append(b, x...)
		} else {
			a = append(a, x...)
		}
	}
	return append(a, b...)
}

var errBad = errors.New("bad")

func at(data []byte, pos *big.Int, n int64) ([]byte, error) {
	end := new(big.Int).Add(pos, big.NewInt(n))
	if end.Cmp(big.NewInt(int64(len(data)))) > 0 {
		return nil, errBad
	}
	p := pos.Int64()
	return data[p : p+n], nil
}

// flat is the decoded value in a form that compares.
func static(t *typ, w []byte) (string, error) {
	switch t.k {
	case kUint:
		x := new(big.Int).SetBytes(w)
		if t.n <= 64 {
			x.Mod(x, pow(uint(t.n)))
		}
		return x.String(), nil
	case kInt:
		x := new(big.Int).SetBytes(w)
		n := uint(256)
		if t.n <= 64 {
			n = uint(t.n)
		}
		x.Mod(x, pow(n))
		if x.Bit(int(n-1)) == 1 {
			x.Sub(x, pow(n))
		}
		return x.String(), nil
	case kBool:
		x := new(big.Int).SetBytes(w)
		if x.Cmp(big.NewInt(1)) > 0 {
			return "", errBad
		}
		return fmt.Sprint(x.Sign() == 1), nil
	case kLeft:
		return fmt.Sprintf("%x", w[32-t.n:]), nil
	}
	return fmt.Sprintf("%x", w[:t.n]), nil
}

func decode(ts []*typ, data []byte) (l []string, err error) {
	pos := int64(0)
	for _, t := range ts {
		w, err := at(data, big.NewInt(pos), 32)
		if err != nil {
			return nil, err
		}
		s := ""
		list := func(from *big.Int, n int64) error {
			b, err := at(data, from, 32*n)
			if err != nil {
				return err
			}
			for i := int64(0); i < n; i++ {
				x, err := static(t.elem, b[32*i:32*i+32])
				if err != nil {
					return err
				}
				s += x + ","
			}
			return nil
		}
		switch {
		case t.dynamic():
			off := new(big.Int).SetBytes(w)
			lw, err := at(data, off, 32)
			if err != nil {
				return nil, err
			}
			n := new(big.Int).SetBytes(lw)
			from := new(big.Int).Add(off, big.NewInt(32))
			if n.Cmp(big.NewInt(int64(len(data)))) > 0 {
				return nil, errBad
			}
			if t.k == kSlice {
				if err := list(from, n.Int64()); err != nil {
					return nil, err
				}
			} else {
				b, err := at(data, from, n.Int64())
				if err != nil {
					return nil, err
				}
				s = fmt.Sprintf("%x", b)
			}
		case t.k == kArray:
			if err := list(big.NewInt(pos), int64(t.n)); err != nil {
				return nil, err
			}
		default:
			if s, err = static(t, w); err != nil {
				return nil, err
			}
		}
		l = append(l, s)
		pos += 32 * int64(t.words())
	}
	return
}

// show brings a decoded Go value into the same form.
func show(t *typ, v interface{}) string {
	switch t.k {
	case kUint, kInt:
		return number(v).String()
	case kBool:
		return fmt.Sprint(v.(bool))
	case kString:
		return fmt.Sprintf("%x", v.(string))
	case kBytes:
		return fmt.Sprintf("%x", v.([]byte))
	case kLeft, kFixed:
		return fmt.Sprintf("%x", raw(v))
	}
	s := ""
	l := reflect.ValueOf(v)
	for i := 0; i < l.Len(); i++ {
		s += show(t.elem, l.Index(i).Interface()) + ","
	}
	return s
}

// ---- the types and values ----

func pattern(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + seed
	}
	return b
}

func fixed(n int, seed byte) interface{} {
	a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
	reflect.Copy(a, reflect.ValueOf(pattern(n, seed)))
	return a.Interface()
}

var scalars = func() (l []*typ) {
	add := func(name string, k kind, n int, v ...interface{}) {
		l = append(l, &typ{name: name, k: k, n: n, vals: v})
	}
	add("uint8", kUint, 8, uint8(0), uint8(1), uint8(255))
	add("uint16", kUint, 16, uint16(256), uint16(65535))
	add("uint32", kUint, 32, uint32(1<<31), uint32(1<<32-1))
	add("uint64", kUint, 64, uint64(1<<63), uint64(1<<64-1))
	add("uint256", kUint, 256, new(big.Int), big.NewInt(1), pow(255), new(big.Int).Sub(pow(256), big.NewInt(1)))
	add("uint24", kUint, 24+256, big.NewInt(1<<24-1))
	add("int8", kInt, 8, int8(-128), int8(-1), int8(127))
	add("int16", kInt, 16, int16(-1), int16(-32768))
	add("int32", kInt, 32, int32(-1<<31), int32(5))
	add("int64", kInt, 64, int64(-1), int64(-1<<63), int64(1<<63-1))
	add("int256", kInt, 256, big.NewInt(-1), new(big.Int).Neg(pow(255)), new(big.Int).Sub(pow(255), big.NewInt(1)), new(big.Int))
	add("bool", kBool, 0, true, false)
	var ad types.Address
	copy(ad[:], pattern(types.AddressSize, 3))
	var g types.Gid
	copy(g[:], pattern(types.GidSize, 4))
	var tk types.TokenTypeId
	copy(tk[:], pattern(types.TokenTypeIdSize, 5))
	add("address", kLeft, types.AddressSize, ad, types.Address{})
	add("gid", kLeft, types.GidSize, g)
	add("tokenId", kLeft, types.TokenTypeIdSize, tk)
	add("bytes1", kFixed, 1, fixed(1, 200))
	add("bytes10", kFixed, 10, fixed(10, 1))
	add("bytes32", kFixed, 32, fixed(32, 250), fixed(32, 0))
	return
}()

var all = func() (l []*typ) {
	l = append(l, scalars...)
	by := &typ{name: "bytes", k: kBytes}
	st := &typ{name: "string", k: kString}
	for _, n := range []int{0, 1, 31, 32, 33, 64, 100} {
		by.vals = append(by.vals, pattern(n, byte(n)))
		st.vals = append(st.vals, string(pattern(n, byte(n))))
	}
	l = append(l, by, st)
	for _, e := range scalars {
		goType := reflect.TypeOf(e.vals[0])
		val := func(i int) reflect.Value { return reflect.ValueOf(e.vals[i%len(e.vals)]) }
		for _, n := range []int{1, 2, 11} {
			if n == 11 && e.name != "uint8" {
				continue
			}
			a := reflect.New(reflect.ArrayOf(n, goType)).Elem()
			for i := 0; i < n; i++ {
				a.Index(i).Set(val(i))
			}
			l = append(l, &typ{name: fmt.Sprintf("%s[%d]", e.name, n), k: kArray, n: n, elem: e, vals: []interface{}{a.Interface()}})
		}
		s := &typ{name: e.name + "[]", k: kSlice, elem: e}
		for _, n := range []int{0, 1, 3} {
			a := reflect.MakeSlice(reflect.SliceOf(goType), n, n)
			for i := 0; i < n; i++ {
				a.Index(i).Set(val(i + n))
			}
			s.vals = append(s.vals, a.Interface())
		}
		l = append(l, s)
	}
	return
}()

func named(names ...string) (l []*typ) {
	for _, n := range names {
		for _, t := range all {
			if t.name == n {
				l = append(l, t)
			}
		}
	}
	if len(l) != len(names) {
		panic("unknown type")
	}
	return
}

var few = named("uint8", "int64", "uint256", "bool", "address", "bytes10", "bytes", "string", "uint16[2]", "address[]", "bytes32[1]", "uint256[]")

// ---- the code under check ----

func def(ts []*typ, indexed int) string {
	var in []string
	for i, t := range ts {
		in = append(in, fmt.Sprintf(`{"name":"arg%d","type":"%s","indexed":%v}`, i, t.name, indexed>>uint(i)&1 == 1))
	}
	s := "[" + strings.Join(in, ",") + "]"
	return fmt.Sprintf(`[{"type":"constructor","inputs":%s},{"type":"function","name":"f","inputs":%s},{"type":"callback","name":"f","inputs":%s},{"type":"offchain","name":"f","inputs":%s,"outputs":%s},{"type":"event","name":"f","inputs":%s},{"type":"function","name":"g","inputs":[]}%s]`,
		s, s, s, s, s, s, map[bool]string{true: "", false: fmt.Sprintf(`,{"type":"variable","name":"f","inputs":%s}`, s)}[len(ts) == 0])
}

func load(c *C, ts []*typ, indexed int) abi.ABIContract {
	x, err := abi.JSONToABIContract(strings.NewReader(def(ts, indexed)))
	if err != nil {
		c.Fail("V05/definition", "%s: %v", def(ts, indexed), err)
	}
	return x
}

func names(ts []*typ) string {
	var l []string
	for _, t := range ts {
		l = append(l, t.name)
	}
	return strings.Join(l, ",")
}

func copyOf(v interface{}) interface{} {
	if b, ok := v.(*big.Int); ok {
		return new(big.Int).Set(b)
	}
	return v
}

func digest(s string) []byte {
	h := blake2b.Sum256([]byte(s))
	return h[:]
}

// round encodes and decodes one list of values in every place an argument list occurs.
func round(c *C, ts []*typ, vs []interface{}) {
	x := load(c, ts, 0)
	want := encode(ts, vs)
	var flat []string
	var args []interface{}
	for i, t := range ts {
		flat = append(flat, show(t, vs[i]))
		args = append(args, copyOf(vs[i]))
	}
	sig := "f(" + names(ts) + ")"
	is := func(what string, got []byte, err error, want []byte) {
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("V05/encode", "%s of %s with %v is %x (%v), should be %x", what, sig, flat, got, err, want)
		}
		for i, t := range ts {
			if show(t, args[i]) != flat[i] {
				c.Fail("V05/argument-changed", "%s of %s changed its argument %d from %s to %s", what, sig, i, flat[i], show(t, args[i]))
			}
		}
	}
	var cb []*typ
	cb = append(cb, ts...)
	b, err := x.PackMethod("f", args...)
	is("call", b, err, append(digest(sig)[:4:4], want...))
	b, err = x.PackMethod("", args...)
	is("constructor", b, err, want)
	cname := "fCallback"
	b, err = x.PackCallback("f", args...)
	is("callback", b, err, append(digest(cname + "(" + names(cb) + ")")[:4:4], want...))
	b, err = x.PackOffChain("f", args...)
	is("query", b, err, append(digest(sig)[:4:4], want...))
	if len(ts) > 0 {
		b, err = x.PackVariable("f", args...)
		is("variable", b, err, want)
	}
	got := func(what string, l []interface{}, err error) {
		if err != nil || len(l) != len(ts) {
			c.Fail("V05/decode", "%s of %s with %v: %v (%v)", what, sig, flat, l, err)
		}
		for i, t := range ts {
			if reflect.TypeOf(l[i]) != reflect.TypeOf(vs[i]) || show(t, l[i]) != flat[i] {
				c.Fail("V05/decode", "%s of %s with %v gives %T %v for argument %d", what, sig, flat, l[i], l[i], i)
			}
		}
	}
	if len(ts) > 0 {
		call := append(digest(sig)[:4:4], want...)
		l, err := x.DirectUnpackMethodInput("f", call)
		got("call", l, err)
		if _, err := x.DirectUnpackMethodInput("g", call); err == nil {
			c.Fail("V05/other-method", "a call of %s is decoded as a call of g", sig)
		}
		m, err := x.MethodById(call)
		if err != nil || m.Name != "f" || m.Sig() != sig {
			c.Fail("V05/method", "the method of %x is %v (%v)", call[:4], m, err)
		}
		l, err = x.DirectUnpackOffchainOutput("f", want)
		got("query result", l, err)
		// into a struct, by name
		var fields []reflect.StructField
		for i := range ts {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("Arg%d", i), Type: reflect.TypeOf(vs[i])})
		}
		for pass, f := range []func(v interface{}) error{
			func(v interface{}) error { return x.UnpackMethod(v, "f", call) },
			func(v interface{}) error { return x.UnpackVariable(v, "f", want) },
			func(v interface{}) error { return x.UnpackEvent(v, "f", want) },
		} {
			p := reflect.New(reflect.StructOf(fields))
			err := f(p.Interface())
			var l []interface{}
			for i := range ts {
				l = append(l, p.Elem().Field(i).Interface())
			}
			got(fmt.Sprintf("struct %d", pass), l, err)
		}
		if len(ts) == 1 {
			p := reflect.New(reflect.TypeOf(vs[0]))
			err := x.UnpackMethod(p.Interface(), "f", call)
			got("single value", []interface{}{p.Elem().Interface()}, err)
			p = reflect.New(reflect.TypeOf(vs[0]))
			err = x.UnpackVariable(p.Interface(), "f", want)
			got("single variable", []interface{}{p.Elem().Interface()}, err)
		} else {
			// into a list of pointers
			var ptrs []interface{}
			for i := range ts {
				ptrs = append(ptrs, reflect.New(reflect.TypeOf(vs[i])).Interface())
			}
			err := x.UnpackMethod(&ptrs, "f", call)
			var l []interface{}
			for i := range ts {
				l = append(l, reflect.ValueOf(ptrs[i]).Elem().Interface())
			}
			got("list", l, err)
		}
		// with tags, in the other order
		fields = nil
		for i := len(ts) - 1; i >= 0; i-- {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: reflect.TypeOf(vs[i]), Tag: reflect.StructTag(fmt.Sprintf(`abi:"arg%d"`, i))})
		}
		p := reflect.New(reflect.StructOf(fields))
		err = x.UnpackMethod(p.Interface(), "f", call)
		l = nil
		for i := range ts {
			l = append(l, p.Elem().Field(len(ts)-1-i).Interface())
		}
		got("tagged struct", l, err)
	}
	// too few and too many arguments
	if _, err := x.PackMethod("f", append(append([]interface{}(nil), args...), uint8(1))...); err == nil {
		c.Fail("V05/count", "%s takes an argument too many", sig)
	}
	if len(args) > 0 {
		if _, err := x.PackMethod("f", args[1:]...); err == nil {
			c.Fail("V05/count", "%s takes an argument too few", sig)
		}
	}
	c.State()
	c.AddTransitions(1)
}

// event encodes and decodes an event with some indexed arguments.
func event(c *C, ts []*typ, vs []interface{}, indexed int) {
	x := load(c, ts, indexed)
	sig := "f(" + names(ts) + ")"
	var pt []*typ
	var pv []interface{}
	topics := []types.Hash{}
	id, _ := types.BytesToHash(digest(sig))
	topics = append(topics, id)
	var flat []string
	for i, t := range ts {
		if indexed>>uint(i)&1 == 0 {
			pt, pv = append(pt, t), append(pv, vs[i])
			flat = append(flat, show(t, vs[i]))
			continue
		}
		b := body(t, vs[i])
		if len(b) > 32 {
			b = digest(string(b))
		}
		h, _ := types.BytesToHash(b)
		topics = append(topics, h)
		if t.dynamic() || t.k == kArray {
			flat = append(flat, h.Hex())
		} else {
			flat = append(flat, show(t, vs[i]))
		}
	}
	data := encode(pt, pv)
	var args []interface{}
	for _, v := range vs {
		args = append(args, copyOf(v))
	}
	gt, gd, err := x.PackEvent("f", args...)
	if err != nil || !bytes.Equal(gd, data) || fmt.Sprint(gt) != fmt.Sprint(topics) {
		c.Fail("V05/event", "event %s (indexed %b) is %v %x (%v), should be %v %x", sig, indexed, gt, gd, err, topics, data)
	}
	if eid, err := x.EventID("f"); err != nil || *eid != id {
		c.Fail("V05/event", "the id of %s is %v (%v)", sig, eid, err)
	}
	name, l, err := x.DirectUnpackEvent(topics, data)
	if err != nil || len(l) != len(ts) || !strings.HasPrefix(name, "event f(") {
		c.Fail("V05/event", "event %s (indexed %b) is decoded to %s %v (%v)", sig, indexed, name, l, err)
	}
	for i, t := range ts {
		s := ""
		if h, ok := l[i].(types.Hash); ok && indexed>>uint(i)&1 == 1 {
			s = h.Hex()
		} else {
			s = show(t, l[i])
		}
		if s != flat[i] {
			c.Fail("V05/event", "argument %d of event %s (indexed %b) is decoded to %s, should be %s", i, sig, indexed, s, flat[i])
		}
	}
	// any contract can emit any topics
	for n := 0; n < len(topics); n++ {
		if _, _, err := x.DirectUnpackEvent(topics[:n], data); err == nil {
			c.Fail("V05/topics", "event %s (indexed %b) is decoded from %d topics", sig, indexed, n)
		}
	}
	c.State()
	c.AddTransitions(1)
}

// damaged compares the decoder with the definition on bad data.
func damaged(c *C, x abi.ABIContract, ts []*typ, what string, data []byte) {
	want, werr := decode(ts, data)
	l, err := x.DirectUnpackOffchainOutput("f", data)
	if (err == nil) != (werr == nil) {
		c.Fail("V05/damaged", "%s of (%s): decoding %x gives %v (%v), the definition %v (%v)", what, names(ts), data, l, err, want, werr)
	}
	for i := range want {
		if show(ts[i], l[i]) != want[i] {
			c.Fail("V05/damaged", "%s of (%s): decoding %x gives %v for argument %d, the definition %s", what, names(ts), data, l[i], i, want[i])
		}
	}
	c.AddTransitions(1)
}

func damages(c *C, ts []*typ, vs []interface{}, deep bool) {
	x := load(c, ts, 0)
	data := encode(ts, vs)
	n := int64(len(data))
	for i := 0; i < len(data); i++ {
		damaged(c, x, ts, fmt.Sprintf("cut at %d", i), data[:i:i])
	}
	var bad []*big.Int
	for _, v := range []int64{0, 1, 2, 31, 32, 33, 64, n - 33, n - 32, n - 31, n, n + 1, n - 64} {
		if v >= 0 {
			bad = append(bad, big.NewInt(v))
		}
	}
	for _, p := range []uint{31, 32, 58, 59, 63, 64, 255, 256} {
		for _, d := range []int64{-64, -33, -32, -31, -1, 0, 1} {
			if v := new(big.Int).Add(pow(p), big.NewInt(d)); v.BitLen() <= 256 {
				bad = append(bad, v)
			}
		}
	}
	for w := 0; w+32 <= len(data); w += 32 {
		for _, b := range bad {
			m := append([]byte(nil), data...)
			copy(m[w:], word(b))
			damaged(c, x, ts, fmt.Sprintf("word %d set to %v", w/32, b), m)
			if deep {
				for v := 0; v+32 <= len(data); v += 32 {
					if v != w {
						for _, b2 := range bad {
							m2 := append([]byte(nil), m...)
							copy(m2[v:], word(b2))
							damaged(c, x, ts, fmt.Sprintf("words %d and %d set to %v and %v", w/32, v/32, b, b2), m2)
						}
					}
				}
			}
		}
	}
	c.State()
}

var refused = []string{"", "uint", "int", "foo", "1", "[]", "[2]", "uint256[", "uint256]", "uint256[][]", "uint256[2][2]", "uint0", "bytes0", "bytes33", "bytes300", "uint256[0]", "uint256[1 2]", "-", "bytes99999999999999999999", "uint256[99999999999999999999]"}

func pick(c *C, l []*typ) *typ       { return l[c.Choose(len(l))] }
func value(c *C, t *typ) interface{} { return t.vals[c.Choose(len(t.vals))] }

func main() {
	Silence()
	Main(Suite{Property: "V05", QuickBudget: 150 * time.Second, ThoroughBudget: 30 * time.Minute, Scenarios: func(tier string) []Scenario {
		fourth, deep := []*typ{nil}, false
		if tier == "thorough" {
			fourth, deep = few, true
		}
		return []Scenario{
			{Name: "single", Bound: fmt.Sprintf("every value of %d types, as argument, result, variable and event", len(all)), Body: func(c *C) {
				i := c.Choose(len(all) + 1)
				if i == len(all) {
					round(c, nil, nil)
					return
				}
				t := all[i]
				v := value(c, t)
				round(c, []*typ{t}, []interface{}{v})
				event(c, []*typ{t}, []interface{}{v}, 0)
				event(c, []*typ{t}, []interface{}{v}, 1)
			}},
			{Name: "pairs", Bound: "every pair of types", Body: func(c *C) {
				a, b := pick(c, all), pick(c, all)
				ts := []*typ{a, b}
				for i := 0; i < len(a.vals) || i < len(b.vals); i++ {
					vs := []interface{}{a.vals[i%len(a.vals)], b.vals[(i+1)%len(b.vals)]}
					round(c, ts, vs)
					event(c, ts, vs, i%4)
				}
			}},
			{Name: "triples", Bound: "every triple (thorough: quadruple) of representative types, every choice of indexed arguments", Body: func(c *C) {
				ts := []*typ{pick(c, few), pick(c, few), pick(c, few)}
				if t := pick(c, fourth); t != nil {
					ts = append(ts, t)
				}
				var vs []interface{}
				for i, t := range ts {
					vs = append(vs, t.vals[(i+1)%len(t.vals)])
				}
				round(c, ts, vs)
				for m := 0; m < 1<<uint(len(ts)); m++ {
					event(c, ts, vs, m)
				}
			}},
			{Name: "damaged", Bound: "every cut and every boundary value in every word (single types, and thorough: in every two words) of the encodings of single types and representative pairs", Body: func(c *C) {
				if c.Bool() {
					t := pick(c, all)
					damages(c, []*typ{t}, []interface{}{t.vals[len(t.vals)-1]}, true)
					return
				}
				a, b := pick(c, few), pick(c, few)
				damages(c, []*typ{a, b}, []interface{}{a.vals[len(a.vals)-1], b.vals[len(b.vals)/2]}, deep)
			}},
			{Name: "refused", Bound: "wrong types of value for every numeric type and its arrays, and malformed type names", Body: func(c *C) {
				if i := c.Choose(len(refused) + 1); i < len(refused) {
					d := fmt.Sprintf(`[{"type":"function","name":"f","inputs":[{"name":"a","type":%q}]}]`, refused[i])
					c.Op("%s", d)
					if x, err := abi.JSONToABIContract(strings.NewReader(d)); err == nil {
						c.Fail("V05/type", "the type %q is accepted: %v", refused[i], x)
					}
					return
				}
				// (a value of another Go kind for the fixed byte types is a mistake of the program, not of its data)
				l := numbers()
				t := pick(c, l)
				x := load(c, []*typ{t}, 0)
				for _, o := range l {
					// an array may stand for a list
					if reflect.TypeOf(o.vals[0]) == reflect.TypeOf(t.vals[0]) || o.elem != nil && t.elem != nil && reflect.TypeOf(o.elem.vals[0]) == reflect.TypeOf(t.elem.vals[0]) {
						continue
					}
					if b, err := x.PackMethod("f", o.vals[0]); err == nil {
						c.Fail("V05/wrong-type", "%s is given as %s: %x", t.name, o.name, b)
					}
				}
				c.State()
			}},
		}
	}})
}

func numbers() (l []*typ) {
	for _, t := range all {
		e := t
		if t.elem != nil {
			e = t.elem
		}
		if e.k == kUint || e.k == kInt || e.k == kBool || e.k == kString {
			l = append(l, t)
		}
	}
	return
}
