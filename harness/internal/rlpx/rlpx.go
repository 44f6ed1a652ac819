// Package rlpx is an independent, minimal implementation of the BTP flavour of
// RLP (doc/btp.md): written from the specification, shares no code with the
// repository, and is used only by the oracles.
package rlpx

import (
	"errors"
	"math/big"
)

// Null is the encoding of a nil value (empty list of the long form: f8 00).
type Null struct{}

// Raw is an already encoded item.
type Raw []byte

func hdr(short, long byte, n int) []byte {
	if n < 56 {
		return []byte{short + byte(n)}
	}
	var l []byte
	for v := n; v > 0; v >>= 8 {
		l = append([]byte{byte(v)}, l...)
	}
	return append([]byte{long + byte(len(l))}, l...)
}

// Int returns the shortest two's complement of v.
func Int(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{0}
	}
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if v.Cmp(lim) < 0 && v.Cmp(new(big.Int).Neg(lim)) >= 0 {
			x := new(big.Int).Set(v)
			if x.Sign() < 0 {
				x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			}
			b := x.Bytes()
			for len(b) < n {
				b = append([]byte{0}, b...)
			}
			return b
		}
	}
}

// ParseInt interprets b as two's complement.
func ParseInt(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

func Bytes(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(hdr(0x80, 0xb7, len(b)), b...)
}

func List(items ...[]byte) []byte {
	var body []byte
	for _, i := range items {
		body = append(body, i...)
	}
	return append(hdr(0xc0, 0xf7, len(body)), body...)
}

var NullBytes = []byte{0xf8, 0x00}

// Enc encodes ints, strings, bytes, bools, lists ([]interface{}) and nil.
func Enc(v interface{}) []byte {
	switch t := v.(type) {
	case nil:
		return append([]byte{}, NullBytes...)
	case Null:
		return append([]byte{}, NullBytes...)
	case Raw:
		return t
	case int:
		return Bytes(Int(big.NewInt(int64(t))))
	case int64:
		return Bytes(Int(big.NewInt(t)))
	case uint64:
		return Bytes(Int(new(big.Int).SetUint64(t)))
	case *big.Int:
		return Bytes(Int(t))
	case bool:
		if t {
			return Bytes([]byte{1})
		}
		return Bytes([]byte{0})
	case string:
		return Bytes([]byte(t))
	case []byte:
		if t == nil {
			return append([]byte{}, NullBytes...)
		}
		return Bytes(t)
	case []interface{}:
		var items [][]byte
		for _, i := range t {
			items = append(items, Enc(i))
		}
		return List(items...)
	case [][]byte:
		var items [][]byte
		for _, i := range t {
			items = append(items, Enc(i))
		}
		return List(items...)
	}
	panic("rlpx: unsupported type")
}

// Item is a decoded item.
type Item struct {
	IsList bool
	IsNull bool
	B      []byte
	L      []*Item
}

var ErrTrunc = errors.New("truncated")

func size(b []byte) (int, error) {
	n := 0
	if len(b) > 4 {
		return 0, errors.New("too big")
	}
	for _, c := range b {
		n = n<<8 | int(c)
	}
	return n, nil
}

// Dec decodes one item and returns the rest.
func Dec(b []byte) (*Item, []byte, error) {
	if len(b) == 0 {
		return nil, nil, ErrTrunc
	}
	t := b[0]
	take := func(off, n int) ([]byte, []byte, error) {
		if len(b) < off+n {
			return nil, nil, ErrTrunc
		}
		return b[off : off+n], b[off+n:], nil
	}
	long := func(k int) (int, int, error) {
		if len(b) < 1+k {
			return 0, 0, ErrTrunc
		}
		n, err := size(b[1 : 1+k])
		return 1 + k, n, err
	}
	var off, n int
	var err error
	list := false
	switch {
	case t < 0x80:
		return &Item{B: b[:1]}, b[1:], nil
	case t <= 0xb7:
		off, n = 1, int(t-0x80)
	case t <= 0xbf:
		off, n, err = long(int(t - 0xb7))
	case t <= 0xf7:
		off, n, list = 1, int(t-0xc0), true
	default:
		off, n, err = long(int(t - 0xf7))
		list = true
	}
	if err != nil {
		return nil, nil, err
	}
	body, rest, err := take(off, n)
	if err != nil {
		return nil, nil, err
	}
	if !list {
		return &Item{B: body}, rest, nil
	}
	it := &Item{IsList: true, IsNull: t == 0xf8 && n == 0}
	for len(body) > 0 {
		var c *Item
		if c, body, err = Dec(body); err != nil {
			return nil, nil, err
		}
		it.L = append(it.L, c)
	}
	return it, rest, nil
}

// DecAll decodes exactly one item.
func DecAll(b []byte) (*Item, error) {
	i, r, err := Dec(b)
	if err != nil {
		return nil, err
	}
	if len(r) != 0 {
		return nil, errors.New("trailing bytes")
	}
	return i, nil
}

func (i *Item) Int() int64 { return ParseInt(i.B).Int64() }
