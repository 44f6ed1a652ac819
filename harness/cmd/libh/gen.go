package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"

	"verifharness/internal/mon"
	"verifharness/internal/rlpx"
)

// pair writes itself as a list of its two parts through the encoder interface.
type pair struct {
	A int64
	B []byte
	L []string
}

func (p *pair) RLPEncodeSelf(e codec.Encoder) error {
	e2, err := e.EncodeList()
	if err != nil {
		return err
	}
	if err = e2.EncodeMulti(p.A, p.B); err != nil {
		return err
	}
	e3, err := e2.EncodeList()
	if err != nil {
		return err
	}
	for _, s := range p.L {
		if err = e3.Encode(s); err != nil {
			return err
		}
	}
	return nil
}

func (p *pair) RLPDecodeSelf(d codec.Decoder) error {
	d2, err := d.DecodeList()
	if err != nil {
		return err
	}
	if n, err := d2.DecodeMulti(&p.A, &p.B); err != nil || n != 2 {
		return fmt.Errorf("multi %d %v", n, err)
	}
	return d2.Decode(&p.L)
}

// triple uses EncodeListOf / DecodeListOf.
type triple struct {
	S string
	U uint64
	T bool
}

func (p *triple) RLPEncodeSelf(e codec.Encoder) error { return e.EncodeListOf(p.S, p.U, p.T) }
func (p *triple) RLPDecodeSelf(d codec.Decoder) error { return d.DecodeListOf(&p.S, &p.U, &p.T) }

// opaque is written raw.
type opaque struct{ raw []byte }

func (o *opaque) MarshalRLP() ([]byte, error) { return o.raw, nil }
func (o *opaque) UnmarshalRLP(b []byte) error { o.raw = append([]byte{}, b...); return nil }

var customs = []reflect.Type{
	reflect.TypeOf(common.HexInt{}), reflect.TypeOf(common.Address{}), reflect.TypeOf(common.HexInt64{}),
	reflect.TypeOf(common.HexUint64{}), reflect.TypeOf(common.HexInt32{}), reflect.TypeOf(common.HexUint32{}),
	reflect.TypeOf(common.HexInt16{}), reflect.TypeOf(common.HexUint16{}), reflect.TypeOf(pair{}), reflect.TypeOf(triple{}),
}
var rawType = reflect.TypeOf(opaque{})

var scalars = []reflect.Type{
	reflect.TypeOf(true), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(""),
}

type gen struct {
	*mon.Case
	raw bool // raw items allowed (RLP only)
}

func (g gen) typ(depth int, custom bool) reflect.Type {
	n := g.Intn(20)
	if depth <= 0 && n >= 9 {
		n = g.Intn(9)
	}
	switch {
	case n < 6:
		return scalars[g.Intn(len(scalars))]
	case n < 8:
		return reflect.TypeOf([]byte(nil))
	case n == 8:
		return reflect.ArrayOf(g.Intn(70), reflect.TypeOf(byte(0)))
	case n < 11:
		if !custom {
			return scalars[g.Intn(len(scalars))]
		}
		if g.raw && g.Intn(6) == 0 {
			return rawType
		}
		return customs[g.Intn(len(customs))]
	case n < 14:
		e := g.typ(depth-1, custom)
		if e.Kind() == reflect.Uint8 {
			e = reflect.TypeOf("")
		}
		return reflect.SliceOf(e)
	case n == 14:
		e := g.typ(depth-1, custom)
		if e.Kind() == reflect.Uint8 {
			e = reflect.TypeOf(int16(0))
		}
		return reflect.ArrayOf(g.Intn(5), e)
	case n == 15:
		e := g.typ(depth-1, custom)
		switch e.Kind() {
		case reflect.Slice, reflect.Map, reflect.Ptr: // an absent value is ambiguous
			return e
		}
		if e == rawType { // takes an absent value as it is
			return e
		}
		return reflect.PtrTo(e)
	case n == 16:
		keys := scalars[1:]
		return reflect.MapOf(keys[g.Intn(len(keys))], g.typ(depth-1, false))
	default:
		var fs []reflect.StructField
		for i, c := 0, g.Intn(6); i < c; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.typ(depth-1, custom)})
		}
		return reflect.StructOf(fs)
	}
}

var lens = []int{0, 1, 2, 3, 31, 32, 54, 55, 56, 57, 127, 128, 254, 255, 256, 257, 1000}

func (g gen) size() int {
	switch g.Intn(12) {
	case 0:
		return lens[g.Intn(len(lens))]
	case 1:
		if g.Intn(40) == 0 {
			return []int{65534, 65535, 65536, 65537, 70000}[g.Intn(5)]
		}
		return g.Intn(300)
	}
	return g.Intn(8)
}

func (g gen) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.Intn(6) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xf7, 0xf8, 0xff}[g.Intn(11)]
		}
	default:
		g.Read(b)
	}
	return b
}

func (g gen) int64() int64 {
	switch g.Intn(4) {
	case 0:
		return int64(g.Uint64())
	case 1:
		return int64(g.Intn(513)) - 256
	default:
		v := int64(1) << uint(g.Intn(64))
		v += int64(g.Intn(5)) - 2
		if g.Intn(2) == 0 {
			v = -v
		}
		return v
	}
}

func (g gen) big() *big.Int {
	v := new(big.Int)
	switch g.Intn(3) {
	case 0:
		v.SetBytes(g.bytes(g.Intn(70)))
	case 1:
		v.SetInt64(g.int64())
	default:
		v.Lsh(big.NewInt(1), uint(g.Intn(560)))
		v.Add(v, big.NewInt(int64(g.Intn(5)-2)))
	}
	if g.Intn(2) == 0 {
		v.Neg(v)
	}
	return v
}

func (g gen) str() string {
	b := g.bytes(g.size())
	if g.Intn(3) == 0 {
		return string(b)
	}
	al := []rune("abcXYZ 0129_./\\\"'{}[]<>&é한🙂\u2028\x01\n\t")
	var r []rune
	for i, n := 0, g.size()%64; i < n; i++ {
		r = append(r, al[g.Intn(len(al))])
	}
	return string(r)
}

// top is the type of a whole message: an absent message is not a value.
func (g gen) top(depth int) reflect.Type {
	t := g.typ(depth, true)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

func (g gen) fill(v reflect.Value, depth int) {
	switch t := v.Addr().Interface().(type) {
	case *common.HexInt:
		t.Set(g.big())
		return
	case *common.Address:
		t.SetTypeAndID(g.Intn(2) == 0, g.bytes(20))
		return
	case *pair:
		t.A = g.int64()
		if g.Intn(5) > 0 {
			t.B = g.bytes(g.size())
		}
		t.L = make([]string, g.Intn(4))
		for i := range t.L {
			t.L[i] = g.str()
		}
		return
	case *opaque:
		t.raw = rlpx.Enc([]interface{}{g.bytes(g.size()), g.int64(), []interface{}{g.str()}})
		if g.Intn(2) == 0 {
			t.raw = rlpx.Enc(g.bytes(g.size()))
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int64() >> uint(64-v.Type().Bits()))
		if g.Intn(2) == 0 {
			x := g.int64()
			if !v.OverflowInt(x) {
				v.SetInt(x)
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.int64()) >> uint(64-v.Type().Bits()))
		if g.Intn(2) == 0 {
			x := uint64(g.int64())
			if !v.OverflowUint(x) {
				v.SetUint(x)
			}
		}
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		if g.Intn(8) == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.bytes(g.size()))
			return
		}
		n := g.Intn(4)
		if g.Intn(20) == 0 {
			n = []int{15, 16, 17, 18, 31, 32, 33, 60, 70}[g.Intn(9)]
		}
		if depth < 3 && n > 4 {
			n = 4 + n%14
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Ptr:
		if g.Intn(4) == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), depth-1)
	case reflect.Map:
		if g.Intn(6) == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i, n := 0, g.Intn(6); i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			g.fill(k, 0)
			x := reflect.New(v.Type().Elem()).Elem()
			g.fill(x, depth-1)
			v.SetMapIndex(k, x)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth-1)
		}
	default:
		panic("harness: " + v.Type().String())
	}
}

// ref is the encoding of v according to the specification.
func ref(v reflect.Value) []byte {
	if v.CanAddr() {
		switch t := v.Addr().Interface().(type) {
		case *common.HexInt:
			return rlpx.Enc(&t.Int)
		case *common.Address:
			return rlpx.Enc(append([]byte{}, t[:]...))
		case *common.HexInt64:
			return rlpx.Enc(t.Value)
		case *common.HexUint64:
			return rlpx.Enc(t.Value)
		case *common.HexInt32:
			return rlpx.Enc(int64(t.Value))
		case *common.HexUint32:
			return rlpx.Enc(int64(t.Value))
		case *common.HexInt16:
			return rlpx.Enc(int64(t.Value))
		case *common.HexUint16:
			return rlpx.Enc(int64(t.Value))
		case *pair:
			var l []interface{}
			for _, s := range t.L {
				l = append(l, s)
			}
			return rlpx.Enc([]interface{}{t.A, t.B, l})
		case *triple:
			return rlpx.Enc([]interface{}{t.S, t.U, t.T})
		case *opaque:
			return t.raw
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		return rlpx.Enc(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rlpx.Enc(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return rlpx.Enc(v.Uint())
	case reflect.String:
		return rlpx.Enc(v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return rlpx.Enc(nil)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return rlpx.Enc(b)
		}
		var items [][]byte
		for i := 0; i < v.Len(); i++ {
			items = append(items, ref(v.Index(i)))
		}
		return rlpx.List(items...)
	case reflect.Ptr:
		if v.IsNil() {
			return rlpx.Enc(nil)
		}
		return ref(v.Elem())
	case reflect.Struct:
		var items [][]byte
		for i := 0; i < v.NumField(); i++ {
			items = append(items, ref(v.Field(i)))
		}
		return rlpx.List(items...)
	case reflect.Map:
		if v.IsNil() {
			return rlpx.Enc(nil)
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool {
			a, b := keys[i], keys[j]
			switch a.Kind() {
			case reflect.String:
				return a.String() < b.String()
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return a.Int() < b.Int()
			}
			return a.Uint() < b.Uint()
		})
		var items [][]byte
		for _, k := range keys {
			items = append(items, ref(k), ref(v.MapIndex(k)))
		}
		return rlpx.List(items...)
	}
	panic("harness: ref " + v.Type().String())
}

// same compares values; big integers by value.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.CanAddr() && b.CanAddr() {
		if x, ok := a.Addr().Interface().(*common.HexInt); ok {
			return x.Cmp(&b.Addr().Interface().(*common.HexInt).Int) == 0
		}
		if x, ok := a.Addr().Interface().(*opaque); ok {
			return bytes.Equal(x.raw, b.Addr().Interface().(*opaque).raw)
		}
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !same(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
