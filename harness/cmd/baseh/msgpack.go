package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
)

// unpack reads one MessagePack value.
func unpack(r *bufio.Reader) (interface{}, error) {
	b, err := r.ReadByte()
	if err != nil {
		return nil, err
	}
	num := func(n int) (uint64, error) {
		x := make([]byte, 8)
		if _, err := io.ReadFull(r, x[8-n:]); err != nil {
			return 0, err
		}
		return binary.BigEndian.Uint64(x), nil
	}
	str := func(n uint64) (interface{}, error) {
		x := make([]byte, n)
		_, err := io.ReadFull(r, x)
		return string(x), err
	}
	arr := func(n uint64) (interface{}, error) {
		var res []interface{}
		for i := uint64(0); i < n; i++ {
			v, err := unpack(r)
			if err != nil {
				return nil, err
			}
			res = append(res, v)
		}
		return res, nil
	}
	obj := func(n uint64) (interface{}, error) {
		res := map[string]interface{}{}
		for i := uint64(0); i < n; i++ {
			a, err := unpack(r)
			if err != nil {
				return nil, err
			}
			v, err := unpack(r)
			if err != nil {
				return nil, err
			}
			res[fmt.Sprint(a)] = v
		}
		return res, nil
	}
	sized := func(n int, f func(uint64) (interface{}, error)) (interface{}, error) {
		l, err := num(n)
		if err != nil {
			return nil, err
		}
		return f(l)
	}
	ext := func(n uint64) (interface{}, error) { return str(n + 1) }
	switch {
	case b < 0x80:
		return int64(b), nil
	case b < 0x90:
		return obj(uint64(b & 15))
	case b < 0xa0:
		return arr(uint64(b & 15))
	case b < 0xc0:
		return str(uint64(b & 31))
	case b >= 0xe0:
		return int64(int8(b)), nil
	}
	switch b {
	case 0xc0:
		return nil, nil
	case 0xc2, 0xc3:
		return b == 0xc3, nil
	case 0xc4, 0xc5, 0xc6:
		return sized(1<<(b-0xc4), str)
	case 0xc7, 0xc8, 0xc9:
		return sized(1<<(b-0xc7), ext)
	case 0xca:
		v, err := num(4)
		return math.Float32frombits(uint32(v)), err
	case 0xcb:
		v, err := num(8)
		return math.Float64frombits(v), err
	case 0xcc, 0xcd, 0xce, 0xcf:
		return num(1 << (b - 0xcc))
	case 0xd0, 0xd1, 0xd2, 0xd3:
		n := 1 << (b - 0xd0)
		v, err := num(n)
		return int64(v<<(64-8*n)) >> (64 - 8*n), err
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(1 << (b - 0xd4))
	case 0xd9, 0xda, 0xdb:
		return sized(1<<(b-0xd9), str)
	case 0xdc, 0xdd:
		return sized(2<<(b-0xdc), arr)
	case 0xde, 0xdf:
		return sized(2<<(b-0xde), obj)
	}
	return nil, fmt.Errorf("byte %x", b)
}
