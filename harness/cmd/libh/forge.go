package main

import (
	"bytes"
	"fmt"

	"github.com/icon-project/btp/common/mbt"

	"verifharness/internal/mbtx"
	"verifharness/internal/mon"
)

// part of a forged proof: a subtree of the true tree shown as a proof node, as
// a content (the hashes of its children one after the other hash to it), or a
// true leaf shown as a content.
type part struct {
	content []byte
	value   []byte
	num     int // of leaves below it
}

func half(n int) int {
	k := 1
	for k*2 < n {
		k *= 2
	}
	return k
}

// cut breaks the tree of ls into parts.
func cut(k *mon.Case, ls [][]byte, depth int, out []part) []part {
	n := len(ls)
	root := mbtx.Root(mbtx.Sha3, ls)
	if n == 1 {
		if k.Intn(3) == 0 {
			return append(out, part{value: root, num: 1})
		}
		return append(out, part{content: ls[0], value: root, num: 1})
	}
	h := half(n)
	switch {
	case depth > 0 && k.Intn(6) == 0:
		return append(out, part{value: root, num: n})
	case depth > 0 && k.Intn(3) == 0:
		c := append(append([]byte{}, mbtx.Root(mbtx.Sha3, ls[:h])...), mbtx.Root(mbtx.Sha3, ls[h:])...)
		return append(out, part{content: c, value: root, num: n})
	}
	out = cut(k, ls[:h], depth+1, out)
	return cut(k, ls[h:], depth+1, out)
}

// binaryRecut: a proof assembled from true parts of the tree with numbers of
// leaves that are not theirs never shows another content at a position.
func binaryRecut(k *mon.Case) {
	hf := mbt.HashFuncByUID("icon")
	n := 2 + k.Intn(11)
	ls := leavesOf(k, n)
	for i := range ls {
		ls[i] = append(ls[i], byte(i), 0xee)
	}
	root := mbtx.Root(mbtx.Sha3, ls)
	ps := cut(k, ls, 0, nil)
	// contents in one run, the others are proof nodes
	var can []int
	for i, p := range ps {
		if p.content != nil {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		return
	}
	b := can[k.Intn(len(can))]
	e := b + 1
	for e < len(ps) && ps[e].content != nil && k.Intn(4) > 0 {
		e++
	}
	for try := 0; try < 12; try++ {
		nums := make([]int, len(ps))
		sum := 0
		for i := range ps {
			nums[i] = 1
			if i < b || i >= e {
				nums[i] = ps[i].num
				if try > 0 && k.Intn(2) == 0 {
					nums[i] = []int{1, 1, 2, 4, 8, 3, 5, 6, ps[i].num + 1, ps[i].num - 1, 0}[k.Intn(11)]
				}
			}
			sum += nums[i]
		}
		// the total has to be right
		if free := len(ps) - (e - b); free > 0 && sum != n {
			i := k.Intn(len(ps))
			for i >= b && i < e {
				i = k.Intn(len(ps))
			}
			nums[i] += n - sum
		} else if sum != n {
			continue
		}
		q := &mbt.MerkleBinaryTreeProof{}
		for i, p := range ps {
			switch {
			case i < b:
				q.ProofInLeft = append(q.ProofInLeft, mbt.ProofNode{NumOfLeaf: nums[i], Value: p.value})
			case i < e:
				q.Contents = append(q.Contents, p.content)
			default:
				q.ProofInRight = append(q.ProofInRight, mbt.ProofNode{NumOfLeaf: nums[i], Value: p.value})
			}
		}
		q.SetHashFunc(hf)
		var rt []byte
		var left, total int
		var err error
		if pn, site, val := mon.Guard(func() { rt, left, total, err = q.Root() }); pn {
			k.Input("%d leaves: %v", n, q)
			k.Fail("panic:"+site, "%v", val)
			return
		}
		k.Count("recut", 1)
		if !bytes.Equal(rt, root) {
			continue
		}
		k.Count("recut_same_root", 1)
		if err != nil || total != n {
			k.Count("recut_refused", 1)
			k.Seen("recut %d %v %d %d", n, nums, b, e)
			continue
		}
		for i, c := range q.Contents {
			if left < 0 || left+i >= n || !bytes.Equal(c, ls[left+i]) {
				k.Input("%d leaves, parts %v", n, fmt.Sprint(nums))
				k.Fail("forged", "content %d at position %d of %d is not what the tree holds there", i, left+i, n)
				return
			}
		}
	}
}

// binaryEmbed: messages of the tree may be made of two hashes, and proof nodes
// may have any number of leaves, none and less than none included.
func binaryEmbed(k *mon.Case) {
	hf := mbt.HashFuncByUID("icon")
	n := 1 + k.Intn(6)
	forged := []byte("forged message")
	junk := mbtx.Sha3([]byte("junk"))
	ls := leavesOf(k, n)
	for i := range ls {
		switch k.Intn(4) {
		case 0:
			ls[i] = append(append([]byte{}, mbtx.Sha3(forged)...), junk...)
		case 1:
			ls[i] = append(append([]byte{}, junk...), mbtx.Sha3(forged)...)
		default:
			ls[i] = append(ls[i], byte(i), 0xed)
		}
	}
	root := mbtx.Root(mbtx.Sha3, ls)
	hashes := [][]byte{junk, mbtx.Sha3(forged), {}}
	var collect func(l [][]byte)
	collect = func(l [][]byte) {
		hashes = append(hashes, mbtx.Root(mbtx.Sha3, l))
		if len(l) > 1 {
			h := half(len(l))
			collect(l[:h])
			collect(l[h:])
		}
	}
	collect(ls)
	contents := append([][]byte{forged, append(append([]byte{}, hashes[0]...), hashes[len(hashes)-1]...)}, ls...)
	pick := func() []byte { return hashes[k.Intn(len(hashes))] }
	num := func() int {
		if k.Intn(8) == 0 {
			return []int{16, 64, 1 << 30, 1<<31 - 1, -1 << 31, -1 << 30, 1 << 62, -1 << 63, 1<<63 - 1}[k.Intn(9)]
		}
		return k.Intn(8) - 3
	}
	t, err := mbt.NewMerkleBinaryTree(hf, ls)
	if err != nil {
		k.Fail("build", "%v", err)
		return
	}
	for try := 0; try < 60; try++ {
		q := &mbt.MerkleBinaryTreeProof{}
		if k.Intn(10) < 7 {
			b := 1 + k.Intn(n)
			e := b + k.Intn(n-b+1)
			p, err := t.Proof(b, e)
			if err != nil {
				k.Fail("proof", "%v", err)
				return
			}
			q.ProofInLeft = append(q.ProofInLeft, p.ProofInLeft...)
			q.Contents = append(q.Contents, p.Contents...)
			q.ProofInRight = append(q.ProofInRight, p.ProofInRight...)
		}
		for j := k.Intn(5); j > 0; j-- {
			side := &q.ProofInLeft
			if k.Intn(2) == 0 {
				side = &q.ProofInRight
			}
			put := func(s *[]mbt.ProofNode, c int) {
				i := k.Intn(len(*s) + 1)
				*s = append(append(append([]mbt.ProofNode{}, (*s)[:i]...), mbt.ProofNode{NumOfLeaf: c, Value: pick()}), (*s)[i:]...)
			}
			switch k.Intn(6) {
			case 0:
				put(side, num())
			case 1:
				c := num()
				put(side, c)
				put(side, -c)
			case 2:
				i := k.Intn(len(q.Contents) + 1)
				q.Contents = append(append(append([][]byte{}, q.Contents[:i]...), contents[k.Intn(len(contents))]), q.Contents[i:]...)
				if k.Intn(2) == 0 {
					put(&q.ProofInRight, -1)
				}
			case 3:
				if len(q.Contents) > 0 {
					q.Contents = append([][]byte{}, q.Contents...)
					q.Contents[k.Intn(len(q.Contents))] = contents[k.Intn(len(contents))]
				}
			case 4:
				if len(*side) > 0 {
					(*side)[k.Intn(len(*side))].NumOfLeaf = num()
				}
			default:
				put(side, 0)
			}
		}
		q.SetHashFunc(hf)
		var rt []byte
		var left, total int
		var err error
		if pn, site, val := mon.Guard(func() { rt, left, total, err = q.Root() }); pn {
			k.Input("%d leaves: %v", n, q)
			k.Fail("panic:"+site, "%v", val)
			return
		}
		k.Count("embed", 1)
		if err != nil || total != n || !bytes.Equal(rt, root) {
			continue
		}
		k.Count("embed_accepted", 1)
		for i, c := range q.Contents {
			if left < 0 || left+i >= n || !bytes.Equal(c, ls[left+i]) {
				k.Input("%d leaves: %v", n, q)
				k.Fail("forged", "content %d at position %d of %d is not what the tree holds there", i, left+i, n)
				return
			}
		}
	}
}
