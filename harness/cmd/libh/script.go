package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"regexp"

	"github.com/icon-project/btp/common/codec"

	"verifharness/internal/mon"
	"verifharness/internal/rlpx"
)

// item is a tree of values written and read call by call through the encoder
// and decoder interfaces, as the types that encode themselves do.
type item struct {
	v    interface{} // []byte, int64, string, bool, []string or nil for a list
	list []*item
}

func (g gen) item(depth int) *item {
	if depth > 0 && g.Intn(3) == 0 {
		it := &item{list: []*item{}}
		for n := g.Intn(5); n > 0; n-- {
			it.list = append(it.list, g.item(depth-1))
		}
		return it
	}
	switch g.Intn(6) {
	case 0:
		return &item{v: g.int64()}
	case 1:
		return &item{v: g.str()}
	case 2:
		return &item{v: g.Intn(2) == 0}
	case 3:
		s := make([]string, g.Intn(3))
		for i := range s {
			s[i] = g.str()
		}
		return &item{v: s}
	case 4:
		return &item{v: []byte(nil)}
	}
	return &item{v: g.bytes(g.size())}
}

func (it *item) ref() []byte {
	if it.list == nil {
		return ref(reflect.ValueOf(it.v))
	}
	var items [][]byte
	for _, x := range it.list {
		items = append(items, x.ref())
	}
	return rlpx.List(items...)
}

func (it *item) String() string {
	if it.list == nil {
		return fmt.Sprintf("%T", it.v)
	}
	return fmt.Sprint(it.list)
}

type selfE struct{ f func(codec.Encoder) error }
type selfD struct{ f func(codec.Decoder) error }

func (s *selfE) RLPEncodeSelf(e codec.Encoder) error { return s.f(e) }
func (s *selfD) RLPDecodeSelf(d codec.Decoder) error { return s.f(d) }

// put writes items one after another, each in one of the ways there are.
func (g gen) put(e codec.Encoder, items []*item) error {
	for i := 0; i < len(items); i++ {
		it := items[i]
		if it.list == nil {
			var run []interface{}
			for j := i; j < len(items) && items[j].list == nil && len(run) <= g.Intn(4); j++ {
				run = append(run, items[j].v)
			}
			if len(run) > 1 {
				if err := e.EncodeMulti(run...); err != nil {
					return err
				}
				i += len(run) - 1
				continue
			}
			if err := e.Encode(it.v); err != nil {
				return err
			}
			continue
		}
		flat := true
		var vs []interface{}
		for _, x := range it.list {
			flat = flat && x.list == nil
			vs = append(vs, x.v)
		}
		var err error
		switch w := g.Intn(4); {
		case w == 0 && flat:
			err = e.EncodeListOf(vs...)
		case w == 1: // an object that writes itself
			err = e.Encode(&selfE{func(e codec.Encoder) error { return g.put(e, []*item{it}) }})
		default:
			var e2 codec.Encoder
			if e2, err = e.EncodeList(); err == nil {
				err = g.put(e2, it.list) // left open: what follows closes it
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func leafPtr(v interface{}) reflect.Value { return reflect.New(reflect.TypeOf(v)) }

func sameLeaf(want interface{}, got reflect.Value) bool {
	x := reflect.New(reflect.TypeOf(want))
	x.Elem().Set(reflect.ValueOf(want))
	return same(x.Elem(), got.Elem())
}

// get reads the items, some lists only in part, in any of the ways there are.
func (g gen) get(d codec.Decoder, items []*item, inList bool) error {
	for i := 0; i < len(items); i++ {
		it := items[i]
		if it.list == nil {
			var run []interface{}
			var vals []interface{}
			for j := i; j < len(items) && items[j].list == nil && len(run) <= g.Intn(4); j++ {
				run = append(run, leafPtr(items[j].v).Interface())
				vals = append(vals, items[j].v)
			}
			b, isBytes := it.v.([]byte)
			switch {
			case len(run) > 1:
				n, err := d.DecodeMulti(run...)
				if err != nil || n != len(run) {
					return fmt.Errorf("DecodeMulti read %d of %d: %v", n, len(run), err)
				}
				for j := range run {
					if !sameLeaf(vals[j], reflect.ValueOf(run[j])) {
						return fmt.Errorf("item %d of DecodeMulti is %v instead of %v", j, reflect.ValueOf(run[j]).Elem().Interface(), vals[j])
					}
				}
				i += len(run) - 1
			case isBytes && b != nil && g.Intn(2) == 0:
				got, err := d.DecodeBytes()
				if err != nil || !bytes.Equal(got, b) {
					return fmt.Errorf("DecodeBytes %x instead of %x: %v", got, b, err)
				}
			default:
				p := leafPtr(it.v)
				if err := d.Decode(p.Interface()); err != nil {
					return fmt.Errorf("%T: %w", it.v, err)
				}
				if !sameLeaf(it.v, p) {
					return fmt.Errorf("%v instead of %v", p.Elem().Interface(), it.v)
				}
			}
			continue
		}
		keep := len(it.list)
		if g.Intn(3) == 0 && keep > 0 {
			keep = g.Intn(keep)
		}
		flat := true
		var ps []interface{}
		for _, x := range it.list[:keep] {
			flat = flat && x.list == nil
			if x.list == nil {
				ps = append(ps, leafPtr(x.v).Interface())
			}
		}
		switch w := g.Intn(4); {
		case w == 0 && flat:
			if err := d.DecodeListOf(ps...); err != nil {
				return fmt.Errorf("DecodeListOf %d of %d: %w", keep, len(it.list), err)
			}
			for j, x := range it.list[:keep] {
				if !sameLeaf(x.v, reflect.ValueOf(ps[j])) {
					return fmt.Errorf("item %d of DecodeListOf differs", j)
				}
			}
		case w == 1:
			if err := d.Decode(&selfD{func(d codec.Decoder) error {
				d2, err := d.DecodeList()
				if err != nil {
					return err
				}
				return g.get(d2, it.list[:keep], keep == len(it.list))
			}}); err != nil {
				return err
			}
		default:
			d2, err := d.DecodeList()
			if err != nil {
				return fmt.Errorf("DecodeList: %w", err)
			}
			if err := g.get(d2, it.list[:keep], keep == len(it.list)); err != nil {
				return err
			}
		}
	}
	if inList && g.Intn(2) == 0 {
		var x []byte
		if err := d.Decode(&x); err != io.EOF {
			return fmt.Errorf("read %x, %v past the end of a list", x, err)
		}
	}
	return nil
}

func script(c codec.Codec, name string) func(*mon.Case) {
	return func(k *mon.Case) {
		g := gen{k, false}
		var items []*item
		for n := 1 + k.Intn(5); n > 0; n-- {
			items = append(items, g.item(4))
		}
		k.Input("%s %v", name, items)
		k.Seen("%s %v", name, items)
		root := &item{list: items}
		var b []byte
		var err error
		if p, site, v := mon.Guard(func() {
			b, err = c.MarshalToBytes(&selfE{func(e codec.Encoder) error { return g.put(e, []*item{root}) }})
		}); p || err != nil {
			k.Fail(name+"-script-encode"+site, "%v %v", err, v)
			return
		}
		if name == "rlp" && !bytes.Equal(b, root.ref()) {
			k.Fail(name+"-script-bytes", "%s instead of %s", short(b), short(root.ref()))
			return
		}
		for n := 0; n < 3; n++ {
			tail := g.bytes(k.Intn(4))
			var rest []byte
			if p, site, v := mon.Guard(func() {
				rest, err = c.UnmarshalFromBytes(append(append([]byte{}, b...), tail...), &selfD{func(d codec.Decoder) error { return g.get(d, []*item{root}, false) }})
			}); p || err != nil {
				k.Fail(name+"-script-decode"+site, "%v %v from %s", err, v, short(b))
				return
			}
			if !bytes.Equal(rest, tail) {
				k.Fail(name+"-script-rest", "%x instead of %x", rest, tail)
				return
			}
			k.Count("script_items", int64(len(items)))
		}
	}
}

// reuse: a value decoded into a used variable is the encoded one, nothing of
// the former value is left in it.
func reuse(c codec.Codec, name string, raw bool) func(*mon.Case) {
	return func(k *mon.Case) {
		g := gen{k, raw}
		t := g.top(4)
		v, w := reflect.New(t), reflect.New(t)
		g.fill(v.Elem(), 4)
		g.fill(w.Elem(), 4)
		k.Input("%s %s", name, t)
		b, err := c.MarshalToBytes(v.Interface())
		if err != nil {
			k.Fail(name+"-encode", "%v", err)
			return
		}
		before, _ := c.MarshalToBytes(w.Interface())
		kept := reflect.New(t) // as a caller keeps what it decoded last
		kept.Elem().Set(w.Elem())
		if _, err = c.UnmarshalFromBytes(b, w.Interface()); err != nil {
			k.Fail(name+"-reuse-decode", "%s: %v over a value %s", t, err, short(before))
			return
		}
		if !same(v.Elem(), w.Elem()) {
			k.Fail(name+"-reuse-value", "%s decoded over %s: %#v instead of %#v", t, short(before), w.Elem().Interface(), v.Elem().Interface())
		}
		if !bigs(t) {
			if after, err := c.MarshalToBytes(kept.Interface()); err != nil || !bytes.Equal(after, before) {
				k.Fail(name+"-reuse-kept", "%s: the former value %s became %s (%v)", t, short(before), short(after), err)
			}
		}
		// an encoder of bytes starts over
		nb := g.bytes(k.Intn(9))
		if err := c.NewEncoderBytes(&nb).Encode(v.Interface()); err != nil || !bytes.Equal(nb, b) {
			k.Fail(name+"-encoder-bytes", "%s: %s instead of %s err=%v", t, short(nb), short(b), err)
		}
		k.Seen("reuse %s", t)
		k.Count("reused", 1)
	}
}

// Embedded and unexported parts, as the types of the relay have them.
type embInner struct {
	X int64
	Y string
	z int
}
type embOuter struct {
	embInner
	A []byte
	b string
	B *embItem
	C [3]embItem
	D [20]byte
	E []embItem
	M map[string]*embItem
}
type embItem struct {
	N uint32
	S []string
}

func embedded(c codec.Codec, name string) func(*mon.Case) {
	return func(k *mon.Case) {
		g := gen{k, false}
		it := func() embItem { return embItem{uint32(g.int64()), []string{g.str()}} }
		o := embOuter{embInner: embInner{X: g.int64(), Y: g.str(), z: 7}, A: g.bytes(g.size()), b: "kept"}
		p := it()
		if k.Intn(3) > 0 {
			o.B = &p
		}
		for i := range o.C {
			o.C[i] = it()
		}
		copy(o.D[:], g.bytes(20))
		o.E = []embItem{}
		for i := k.Intn(40); i > 0; i-- {
			o.E = append(o.E, it())
		}
		o.M = map[string]*embItem{}
		for i := k.Intn(4); i > 0; i-- {
			x := it()
			o.M[g.str()] = &x
		}
		for _, in := range []interface{}{&o, o} { // by pointer and by value
			b, err := c.MarshalToBytes(in)
			if err != nil {
				k.Fail(name+"-embedded-encode", "%T: %v", in, err)
				return
			}
			w := embOuter{embInner: embInner{z: 5}, b: "mine"}
			if _, err := c.UnmarshalFromBytes(b, &w); err != nil {
				k.Fail(name+"-embedded-decode", "%T: %v", in, err)
				return
			}
			if w.z != 5 || w.b != "mine" {
				k.Fail(name+"-embedded-unexported", "%+v", w)
			}
			w.z, w.b = o.z, o.b
			if !reflect.DeepEqual(o, w) {
				k.Fail(name+"-embedded-value", "%T: %+v decoded as %+v", in, o, w)
			}
			if name == "rlp" {
				item := func(i embItem) interface{} { return []interface{}{int64(i.N), []interface{}{i.S[0]}} }
				if o.B == nil && len(o.M) == 0 {
					var cs, es []interface{}
					for _, i := range o.C {
						cs = append(cs, item(i))
					}
					for _, i := range o.E {
						es = append(es, item(i))
					}
					want := rlpx.Enc([]interface{}{o.X, o.Y, o.A, nil, cs, o.D[:], es, []interface{}{}})
					if !bytes.Equal(b, want) {
						k.Fail(name+"-embedded-bytes", "%s instead of %s", short(b), short(want))
					}
					k.Count("embedded_wire", 1)
				}
			}
		}
		k.Count("embedded", 1)
	}
}

// bigs tells whether t holds big integers by value, whose digits copies share.
func bigs(t reflect.Type) bool { return bigRE.MatchString(t.String()) }

var bigRE = regexp.MustCompile(`common\.HexInt($|[^0-9])`)
