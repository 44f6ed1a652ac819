// Package mbtx is an independent definition of the BTP merkle binary tree: the
// root of n > 1 leaves is H(root(first 2^k), root(rest)) with the largest 2^k < n.
package mbtx

import (
	"bytes"

	"golang.org/x/crypto/sha3"
)

type Hash func(...[]byte) []byte

func Keccak(l ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range l {
		h.Write(b)
	}
	return h.Sum(nil)
}

func Sha3(l ...[]byte) []byte {
	h := sha3.New256()
	for _, b := range l {
		h.Write(b)
	}
	return h.Sum(nil)
}

func split(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}

func Root(h Hash, msgs [][]byte) []byte {
	if len(msgs) == 0 {
		return nil
	}
	if len(msgs) == 1 {
		return h(msgs[0])
	}
	k := split(len(msgs))
	return h(Root(h, msgs[:k]), Root(h, msgs[k:]))
}

type Node struct {
	N int
	V []byte
}

// Verify tells whether (left, msgs, right) is the canonical proof of
// msgs = leaves[offset:offset+len(msgs)] in a tree of total leaves with root.
func Verify(h Hash, left []Node, msgs [][]byte, right []Node, offset, total int, root []byte) bool {
	if len(msgs) == 0 || offset < 0 || offset+len(msgs) > total {
		return false
	}
	end := offset + len(msgs)
	ok := true
	var rec func(lo, n int) []byte
	rec = func(lo, n int) []byte {
		if !ok {
			return nil
		}
		switch {
		case lo+n <= offset:
			if len(left) == 0 || left[0].N != n {
				ok = false
				return nil
			}
			v := left[0].V
			left = left[1:]
			return v
		case lo >= end:
			if len(right) == 0 || right[0].N != n {
				ok = false
				return nil
			}
			v := right[0].V
			right = right[1:]
			return v
		case n == 1:
			return h(msgs[lo-offset])
		default:
			k := split(n)
			a := rec(lo, k)
			b := rec(lo+k, n-k)
			return h(a, b)
		}
	}
	r := rec(0, total)
	return ok && len(left) == 0 && len(right) == 0 && bytes.Equal(r, root)
}
