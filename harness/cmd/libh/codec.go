package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"testing/iotest"

	"github.com/icon-project/btp/common/codec"

	"verifharness/internal/mon"
	"verifharness/internal/rlpx"
)

func short(b []byte) string {
	if len(b) > 80 {
		return hex.EncodeToString(b[:80]) + fmt.Sprintf("..(%d)", len(b))
	}
	return hex.EncodeToString(b)
}

// roundTrip: whatever is encoded decodes to the same value, alone, in a
// sequence, and from readers that return little at a time.
func roundTrip(c codec.Codec, name string, raw bool) func(k *mon.Case) {
	return func(k *mon.Case) {
		g := gen{k, raw}
		var stream []byte
		var vals []reflect.Value
		n := 1 + k.Intn(4)
		for i := 0; i < n; i++ {
			t := g.top(4)
			v := reflect.New(t)
			g.fill(v.Elem(), 4)
			k.Input("%s %s", name, t)
			b, err := c.MarshalToBytes(v.Interface())
			if err != nil {
				k.Fail(name+"-encode", "%s: %v", t, err)
				return
			}
			b2, err := c.MarshalToBytes(v.Interface())
			if err != nil || !bytes.Equal(b, b2) {
				k.Fail(name+"-determinism", "%s: %s then %s", t, short(b), short(b2))
				return
			}
			var nb []byte
			if err := c.NewEncoderBytes(&nb).Encode(v.Interface()); err != nil || !bytes.Equal(nb, b) {
				k.Fail(name+"-encoder-bytes", "%s: %s instead of %s err=%v", t, short(nb), short(b), err)
			}
			w := reflect.New(t)
			junk := g.bytes(k.Intn(5))
			rest, err := c.UnmarshalFromBytes(append(append([]byte{}, b...), junk...), w.Interface())
			if err != nil {
				k.Fail(name+"-decode", "%s: %v from %s", t, err, short(b))
				return
			}
			if !bytes.Equal(rest, junk) {
				k.Fail(name+"-rest", "%s: rest %s instead of %s", t, short(rest), short(junk))
			}
			if !same(v.Elem(), w.Elem()) {
				k.Fail(name+"-value", "%s: %#v decoded as %#v from %s", t, v.Elem().Interface(), w.Elem().Interface(), short(b))
				return
			}
			k.Seen("%s", t)
			k.Count("values", 1)
			k.Count("bytes", int64(len(b)))
			stream = append(stream, b...)
			vals = append(vals, v)
		}
		// the same values from one stream
		var buf bytes.Buffer
		enc := c.NewEncoder(&buf)
		for _, v := range vals {
			if err := enc.Encode(v.Interface()); err != nil {
				k.Fail(name+"-stream-encode", "%v", err)
				return
			}
		}
		if !bytes.Equal(buf.Bytes(), stream) {
			k.Fail(name+"-stream-bytes", "stream differs")
			return
		}
		var r io.Reader = &buf
		switch k.Intn(4) {
		case 0:
			r = iotest.OneByteReader(r)
		case 1:
			r = iotest.HalfReader(r)
		case 2:
			r = iotest.DataErrReader(r)
		}
		dec := c.NewDecoder(r)
		for i, v := range vals {
			w := reflect.New(v.Type().Elem())
			if err := dec.Decode(w.Interface()); err != nil {
				k.Fail(name+"-stream-decode", "value %d of %d (%s): %v", i, len(vals), v.Type(), err)
				return
			}
			if !same(v.Elem(), w.Elem()) {
				k.Fail(name+"-stream-value", "value %d (%s) differs", i, v.Type())
				return
			}
		}
		var x []byte
		if err := dec.Decode(&x); err == nil {
			k.Fail(name+"-stream-end", "decoded %x after the end of the stream", x)
		}
	}
}

// wire: encodings are those of the specification, and every encoding of the
// specification is understood, with fields missing or added at the end.
func wire(k *mon.Case) {
	g := gen{k, true}
	t := g.top(4)
	v := reflect.New(t)
	g.fill(v.Elem(), 4)
	k.Input("%s", t)
	want := ref(v.Elem())
	got, err := codec.RLP.MarshalToBytes(v.Interface())
	if err != nil {
		k.Fail("encode", "%s: %v", t, err)
		return
	}
	if !bytes.Equal(got, want) {
		k.Fail("format", "%s %#v: %s instead of %s", t, v.Elem().Interface(), short(got), short(want))
		return
	}
	k.Seen("%s", t)
	k.Count("bytes_compared", int64(len(want)))
	if t.Kind() != reflect.Struct || t == reflect.TypeOf(pair{}) || t == reflect.TypeOf(triple{}) || t == rawType || t.NumField() == 0 || len(want) == 0 {
		return
	}
	if len(customs) > 0 {
		for _, ct := range customs {
			if t == ct {
				return
			}
		}
	}
	// fields of a later version are ignored, those of an earlier one are zero
	var items [][]byte
	for i := 0; i < t.NumField(); i++ {
		items = append(items, ref(v.Elem().Field(i)))
	}
	more := append(append([][]byte{}, items...), rlpx.Enc(g.bytes(g.size())), rlpx.Enc([]interface{}{g.str(), nil, g.int64()}))
	tail := g.bytes(1 + k.Intn(4))
	w := reflect.New(t)
	rest, err := codec.RLP.UnmarshalFromBytes(append(rlpx.List(more...), tail...), w.Interface())
	if err != nil {
		k.Fail("later-version", "%s: %v", t, err)
	} else if !same(v.Elem(), w.Elem()) {
		k.Fail("later-version", "%s: decoded differently with additional fields", t)
	} else if !bytes.Equal(rest, tail) {
		k.Fail("later-version-rest", "%s: rest %x instead of %x", t, rest, tail)
	}
	keep := k.Intn(len(items))
	w = reflect.New(t)
	if _, err := codec.RLP.UnmarshalFromBytes(rlpx.List(items[:keep]...), w.Interface()); err != nil {
		k.Fail("earlier-version", "%s: %v with %d of %d fields", t, err, keep, len(items))
		return
	}
	for i := 0; i < t.NumField(); i++ {
		a := v.Elem().Field(i)
		if i >= keep {
			a = reflect.New(a.Type()).Elem()
		}
		if !same(a, w.Elem().Field(i)) {
			k.Fail("earlier-version", "%s: field %d differs with %d of %d fields", t, i, keep, len(items))
		}
	}
}

// ints: a number that does not fit is refused, never turned into another one.
func wireInts(k *mon.Case) {
	g := gen{k, false}
	t := scalars[1+g.Intn(10)]
	x := g.big()
	k.Input("%s <- %v", t, x)
	b := rlpx.Enc(x)
	if g.Intn(3) == 0 { // longer than needed
		body := rlpx.Int(x)
		pad := byte(0)
		if x.Sign() < 0 {
			pad = 0xff
		}
		for i := g.Intn(4); i > 0; i-- {
			body = append([]byte{pad}, body...)
		}
		b = rlpx.Bytes(body)
	}
	v := reflect.New(t)
	_, err := codec.RLP.UnmarshalFromBytes(b, v.Interface())
	fits := false
	if t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 {
		fits = x.IsUint64() && !v.Elem().OverflowUint(x.Uint64())
		if fits && (err != nil || v.Elem().Uint() != x.Uint64()) {
			k.Fail("int-value", "%s from %x: %v err=%v instead of %v", t, b, v.Elem().Interface(), err, x)
		}
	} else {
		fits = x.IsInt64() && !v.Elem().OverflowInt(x.Int64())
		if fits && (err != nil || v.Elem().Int() != x.Int64()) {
			k.Fail("int-value", "%s from %x: %v err=%v instead of %v", t, b, v.Elem().Interface(), err, x)
		}
	}
	if !fits && err == nil {
		k.Fail("int-wrapped", "%s from %x (%v): %v and no error", t, b, x, v.Elem().Interface())
	}
	k.Seen("%s %d %v", t, x.BitLen(), x.Sign())
	if fits {
		k.Count("fitting", 1)
	} else {
		k.Count("not_fitting", 1)
	}
}

// outerCut tells whether the outermost item announces more than there is.
func outerCut(b []byte) bool {
	t := int(b[0])
	if t >= 0xc0 {
		t -= 0x40
	}
	switch {
	case t < 0x80:
		return false
	case t <= 0xb7:
		return len(b)-1 < t-0x80
	}
	k := t - 0xb7
	if len(b) < 1+k {
		return true
	}
	n := new(big.Int).SetBytes(b[1 : 1+k])
	return n.Cmp(big.NewInt(int64(len(b)-1-k))) > 0
}

// hostile: decoding arbitrary bytes neither crashes nor takes memory out of
// proportion, and accepts nothing that is cut short.
func hostile(c codec.Codec, name string) func(k *mon.Case) {
	return func(k *mon.Case) {
		g := gen{k, false}
		t := g.typ(4, name == "rlp")
		v := reflect.New(t)
		g.fill(v.Elem(), 3)
		b, err := c.MarshalToBytes(v.Interface())
		if err != nil {
			k.Fail(name+"-encode", "%v", err)
			return
		}
		kind := k.Intn(5)
		in := append([]byte{}, b...)
		cut := false
		switch kind {
		case 0: // truncated
			if len(in) == 0 {
				return
			}
			in = in[:k.Intn(len(in))]
			cut = true
		case 1: // some bytes changed
			for i := 0; i <= k.Intn(4) && len(in) > 0; i++ {
				in[k.Intn(len(in))] = []byte{0, 1, 0x7f, 0x80, 0xb7, 0xb8, 0xbb, 0xbf, 0xc0, 0xf7, 0xf8, 0xfb, 0xff, byte(k.Intn(256))}[k.Intn(14)]
			}
		case 2: // random
			in = g.bytes(k.Intn(60))
		case 3: // a length that is not there
			pre := []byte{0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf, 0xf8, 0xf9, 0xfb, 0xff, 0xc4, 0xc5, 0xc6, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xd9, 0xda}[k.Intn(22)]
			in = append([]byte{pre}, bytes.Repeat([]byte{[]byte{0xff, 0x7f, 0x80, 0x3f, 0x10}[k.Intn(5)]}, 8)...)
			if k.Intn(2) == 0 {
				in = append(in, g.bytes(k.Intn(20))...)
			}
			if k.Intn(2) == 0 && name == "rlp" {
				in = append([]byte{0xc0 + byte(len(in))}, in...)
			}
		case 4: // inserted or removed in the middle
			if len(in) > 1 {
				i := k.Intn(len(in))
				if k.Intn(2) == 0 {
					in = append(append(append([]byte{}, in[:i]...), g.bytes(1+k.Intn(3))...), in[i:]...)
				} else {
					in = append(append([]byte{}, in[:i]...), in[i+1:]...)
				}
			}
		}
		k.Input("%s %s kind %d: %s", name, t, kind, short(in))
		w := reflect.New(t)
		var rest []byte
		var m0, m1 runtime.MemStats
		measure := kind == 3 || len(in) < 200
		if measure {
			runtime.ReadMemStats(&m0)
		}
		var derr error
		if p, site, val := mon.Guard(func() { rest, derr = c.UnmarshalFromBytes(in, w.Interface()) }); p {
			k.Fail(name+"-panic:"+site, "%v decoding %s into %s", val, short(in), t)
			return
		}
		if measure {
			runtime.ReadMemStats(&m1)
			if d := m1.TotalAlloc - m0.TotalAlloc; d > 48<<20 {
				k.Fail(name+"-memory", "%d bytes allocated for an input of %d bytes: %s", d, len(in), short(in))
			}
		}
		if derr == nil {
			k.Count(name+"_accepted", 1)
			if cut {
				k.Fail(name+"-truncated", "%s accepted for %s, first %d of %d bytes", short(in), t, len(in), len(b))
			} else if name == "rlp" && len(rest) < len(in) {
				if outerCut(in) {
					k.Fail(name+"-truncated", "%s accepted for %s although it is cut short", short(in), t)
				}
			}
		} else {
			k.Count(name+"_refused", 1)
			k.Seen("%s %d %s", t, kind, derr)
		}
	}
}
