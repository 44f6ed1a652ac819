package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/common/mpt"
	"github.com/icon-project/btp/common/mta"

	"verifharness/internal/mbtx"
	"verifharness/internal/mon"
	"verifharness/internal/rlpx"
)

func leavesOf(k *mon.Case, n int) [][]byte {
	g := gen{k, false}
	r := make([][]byte, n)
	for i := range r {
		r[i] = g.bytes(k.Intn(40))
		if k.Intn(4) == 0 && i > 0 {
			r[i] = append([]byte{}, r[k.Intn(i)]...) // repeated contents
		}
	}
	return r
}

func nodes(p []mbt.ProofNode) []mbtx.Node {
	var r []mbtx.Node
	for _, n := range p {
		r = append(r, mbtx.Node{N: n.NumOfLeaf, V: n.Value})
	}
	return r
}

func treeSize(k *mon.Case) int {
	switch k.Intn(6) {
	case 0:
		return 1 + k.Intn(4)
	case 1:
		return 1<<uint(1+k.Intn(7)) + k.Intn(3) - 1
	case 2:
		return 1 + k.Intn(300)
	}
	return 1 + k.Intn(40)
}

// binaryTree: roots, paths and range proofs of the message tree.
func binaryTree(k *mon.Case) {
	uid, h := "icon", mbtx.Sha3
	if k.Intn(2) == 0 {
		uid, h = "eth", mbtx.Keccak
	}
	hf := mbt.HashFuncByUID(uid)
	n := treeSize(k)
	ls := leavesOf(k, n)
	k.Input("%s %d leaves", uid, n)
	init := k.Intn(n + 1)
	var t *mbt.MerkleBinaryTree
	var err error
	if init == 0 && k.Intn(2) == 0 {
		t, err = mbt.NewMerkleBinaryTree(hf, nil)
	} else {
		t, err = mbt.NewMerkleBinaryTree(hf, append([][]byte{}, ls[:init]...))
	}
	if err != nil {
		k.Fail("new", "%v", err)
		return
	}
	for i := init; i < n; i++ {
		if i > init && k.Intn(8) == 0 && !bytes.Equal(t.Root(), mbtx.Root(h, ls[:i])) {
			k.Fail("root-step", "root of %d leaves", i)
		}
		if err := t.Add(ls[i]); err != nil {
			k.Fail("add", "%v", err)
			return
		}
	}
	root := mbtx.Root(h, ls)
	if t.Len() != n || !bytes.Equal(t.Root(), root) {
		k.Fail("root", "len %d of %d (from %d), root %x instead of %x", t.Len(), n, init, t.Root(), root)
		return
	}
	k.Seen("%s %d %d", uid, n, init)
	for _, i := range []int{1, n, 1 + k.Intn(n), 1 + k.Intn(n)} {
		if c, err := t.Get(i); err != nil || !bytes.Equal(c, ls[i-1]) {
			k.Fail("get", "%d: %x %v", i, c, err)
		}
		p, err := t.Path(i)
		if err != nil || !bytes.Equal(p.Content, ls[i-1]) || !bytes.Equal(p.Root(), root) {
			k.Fail("path", "path of %d of %d: %v", i, n, err)
			continue
		}
		k.Count("paths", 1)
		if len(p.Path) > 0 { // any change is noticed
			q := *p
			q.Path = append([]mbt.PathNode{}, p.Path...)
			j := k.Intn(len(q.Path))
			q.Path[j].Value = append([]byte{}, q.Path[j].Value...)
			q.Path[j].Value[k.Intn(32)] ^= 1
			if bytes.Equal(q.Root(), root) {
				k.Fail("path-forged", "changed path of %d of %d", i, n)
			}
		}
	}
	rounds := 6
	if n <= 9 {
		rounds = n * (n + 1) / 2
	}
	ri := 0
	for r := 0; r < rounds; r++ {
		b := 1 + k.Intn(n)
		e := b + k.Intn(n-b+1)
		if n <= 9 { // every range
			b, e = 1, 1+ri
			ri++
			for b0 := 1; e > n; b0++ {
				e = e - n + b0
				b = b0 + 1
			}
		}
		p, err := t.Proof(b, e)
		if err != nil {
			k.Fail("proof", "%d..%d of %d: %v", b, e, n, err)
			continue
		}
		k.Count("proofs", 1)
		k.Seen("%d %d %d", n, b, e)
		if !mbtx.Verify(h, nodes(p.ProofInLeft), p.Contents, nodes(p.ProofInRight), b-1, n, root) {
			k.Fail("proof-invalid", "%d..%d of %d: %v", b, e, n, p)
			continue
		}
		if len(p.Contents) != e-b+1 || !bytes.Equal(p.Contents[0], ls[b-1]) || !bytes.Equal(p.Contents[e-b], ls[e-1]) {
			k.Fail("proof-contents", "%d..%d of %d", b, e, n)
		}
		rt, left, total, err := p.Root()
		if err != nil || !bytes.Equal(rt, root) || left != b-1 || total != n {
			k.Fail("proof-root", "%d..%d of %d: left %d total %d %v", b, e, n, left, total, err)
		}
		// over the wire
		bs, err := codec.RLP.MarshalToBytes(p)
		if err != nil {
			k.Fail("proof-encode", "%v", err)
			continue
		}
		var q mbt.MerkleBinaryTreeProof
		if _, err := codec.RLP.UnmarshalFromBytes(bs, &q); err != nil {
			k.Fail("proof-decode", "%v", err)
			continue
		}
		q.SetHashFunc(hf)
		if rt, left, total, err := q.Root(); err != nil || !bytes.Equal(rt, root) || left != b-1 || total != n {
			k.Fail("proof-wire", "%d..%d of %d: left %d total %d %v", b, e, n, left, total, err)
		}
	}
	for _, r := range [][2]int{{0, 1}, {1, 0}, {-1, n}, {1, n + 1}, {n + 1, n + 1}, {0, 0}} {
		if p, err := t.Proof(r[0], r[1]); err == nil {
			k.Fail("proof-range", "%v of %d: %v", r, n, p)
		}
	}
	if n > 1 {
		if _, err := t.Proof(n, n-1); err == nil {
			k.Fail("proof-range", "reversed range")
		}
	}
	for _, i := range []int{0, -1, n + 1} {
		if _, err := t.Path(i); err == nil {
			k.Fail("path-range", "%d of %d", i, n)
		}
		if _, err := t.Get(i); err == nil {
			k.Fail("get-range", "%d of %d", i, n)
		}
	}
	if err := t.Add(nil); err == nil || t.Len() != n {
		k.Fail("add-nil", "nil content: %v, len %d", err, t.Len())
	}
}

// binaryForged: no changed proof shows other contents under the same root,
// position and total.
func binaryForged(k *mon.Case) {
	h, hf := mbtx.Sha3, mbt.HashFuncByUID("icon")
	n := 1 + k.Intn(20)
	ls := leavesOf(k, n)
	for i := range ls { // distinguishable
		ls[i] = append(ls[i], byte(i), 0xee)
	}
	t, err := mbt.NewMerkleBinaryTree(hf, ls)
	if err != nil {
		k.Fail("new", "%v", err)
		return
	}
	root := mbtx.Root(h, ls)
	b := 1 + k.Intn(n)
	e := b + k.Intn(n-b+1)
	p, err := t.Proof(b, e)
	if err != nil {
		k.Fail("proof", "%v", err)
		return
	}
	clone := func(s []mbt.ProofNode) []mbt.ProofNode {
		var r []mbt.ProofNode
		for _, x := range s {
			r = append(r, mbt.ProofNode{NumOfLeaf: x.NumOfLeaf, Value: append([]byte{}, x.Value...)})
		}
		return r
	}
	q := &mbt.MerkleBinaryTreeProof{ProofInLeft: clone(p.ProofInLeft), ProofInRight: clone(p.ProofInRight)}
	for _, c := range p.Contents {
		q.Contents = append(q.Contents, append([]byte{}, c...))
	}
	q.SetHashFunc(hf)
	desc := ""
	for m := 0; m <= k.Intn(3); m++ {
		side := &q.ProofInLeft
		if k.Intn(2) == 0 {
			side = &q.ProofInRight
		}
		op := k.Intn(8)
		desc += fmt.Sprint(op, " ")
		switch op {
		case 0: // another content
			if len(q.Contents) > 0 {
				i := k.Intn(len(q.Contents))
				q.Contents[i] = append([]byte{}, ls[k.Intn(n)]...)
			}
		case 1: // swapped contents
			if len(q.Contents) > 1 {
				i, j := k.Intn(len(q.Contents)), k.Intn(len(q.Contents))
				q.Contents[i], q.Contents[j] = q.Contents[j], q.Contents[i]
			}
		case 2: // contents left out
			if len(q.Contents) > 0 {
				i := k.Intn(len(q.Contents))
				q.Contents = append(q.Contents[:i:i], q.Contents[i+1:]...)
			}
		case 3: // number changed
			if len(*side) > 0 {
				i := k.Intn(len(*side))
				(*side)[i].NumOfLeaf += []int{-2, -1, 1, 2, 4, -1 << 40, 1 << 40, -(*side)[i].NumOfLeaf}[k.Intn(8)]
			}
		case 4: // numbers moved
			if len(*side) > 1 {
				i, j := k.Intn(len(*side)), k.Intn(len(*side))
				d := 1 + k.Intn(3)
				(*side)[i].NumOfLeaf += d
				(*side)[j].NumOfLeaf -= d
			}
		case 5: // a node moved to the other side
			if len(q.ProofInLeft) > 0 {
				l := len(q.ProofInLeft) - 1
				q.ProofInRight = append([]mbt.ProofNode{q.ProofInLeft[l]}, q.ProofInRight...)
				q.ProofInLeft = q.ProofInLeft[:l]
			} else if len(q.ProofInRight) > 0 {
				q.ProofInLeft = append(q.ProofInLeft, q.ProofInRight[0])
				q.ProofInRight = q.ProofInRight[1:]
			}
		case 6: // an inner node split or an own one added
			*side = append(*side, mbt.ProofNode{NumOfLeaf: k.Intn(4) - 1, Value: gen{k, false}.bytes(32)})
		case 7:
			if len(*side) > 0 {
				i := k.Intn(len(*side))
				(*side)[i].Value[k.Intn(32)] ^= byte(1 << uint(k.Intn(8)))
			}
		}
	}
	k.Input("%d..%d of %d leaves, changes %s: %v", b, e, n, desc, q)
	var rt []byte
	var left, total int
	if pn, site, val := mon.Guard(func() { rt, left, total, err = q.Root() }); pn {
		k.Fail("panic:"+site, "%v", val)
		return
	}
	k.Seen("%s %d %d %d", desc, n, b, e)
	if err != nil || !bytes.Equal(rt, root) || total != n {
		k.Count("refused", 1)
		return
	}
	k.Count("accepted", 1)
	if left < 0 || left+len(q.Contents) > n {
		k.Fail("forged-position", "left %d with %d contents of %d", left, len(q.Contents), n)
		return
	}
	for i, c := range q.Contents {
		if !bytes.Equal(c, ls[left+i]) {
			k.Fail("forged", "content %d at position %d of %d differs from what the tree holds", i, left+i, n)
			return
		}
	}
}

// refWitness is the witness of leaf idx of an accumulator with n leaves.
func refWitness(leaves [][]byte, idx int) []mta.Witness {
	n := len(leaves)
	lo := 0
	for bit := 62; bit >= 0; bit-- {
		sz := 1 << uint(bit)
		if n&sz == 0 || bit > 40 {
			continue
		}
		if idx < lo+sz {
			var w []mta.Witness
			level := leaves[lo : lo+sz]
			i := idx - lo
			for len(level) > 1 {
				if i%2 == 0 {
					w = append(w, mta.Witness{Direction: mta.Right, HashValue: level[i+1]})
				} else {
					w = append(w, mta.Witness{Direction: mta.Left, HashValue: level[i-1]})
				}
				var up [][]byte
				for j := 0; j < len(level); j += 2 {
					up = append(up, mbtx.Sha3(level[j], level[j+1]))
				}
				level = up
				i /= 2
			}
			return w
		}
		lo += sz
	}
	return nil
}

func sameWitness(a, b []mta.Witness) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Direction != b[i].Direction || !bytes.Equal(a[i].HashValue, b[i].HashValue) {
			return false
		}
	}
	return true
}

// accumulator: witnesses of every element verify, now and against other
// lengths, and after the state was stored and recovered.
func accumulator(k *mon.Case) {
	bk, _ := db.NewMapDB().GetBucket("")
	off := int64(0)
	if k.Intn(2) == 0 {
		off = int64(k.Intn(1000))
	}
	fresh := func() *mta.ExtAccumulator { return mta.NewExtAccumulator([]byte("acc"), bk, off) }
	a := fresh()
	n := 1 + (treeSize(k)-1)%130
	if k.Intn(40) == 0 {
		n = 130 + k.Intn(500)
	}
	k.Input("%d elements, offset %d", n, off)
	k.Seen("%d %d", n, off)
	g := gen{k, false}
	var hs, ds [][]byte
	data := map[int]bool{} // added as data
	for i := 0; i < n; i++ {
		d := append(g.bytes(k.Intn(20)), byte(i), byte(i>>8))
		hv := mbtx.Sha3(d)
		var w []mta.Witness
		if k.Intn(2) == 0 {
			w = a.AddData(d)
			data[i] = true
		} else {
			w = a.AddHash(hv)
		}
		hs, ds = append(hs, hv), append(ds, d)
		if a.Len() != int64(i+1) || a.Height() != off+int64(i+1) || a.Offset() != off {
			k.Fail("length", "%d height %d after %d", a.Len(), a.Height(), i+1)
			return
		}
		if want := refWitness(hs, i); !sameWitness(w, want) {
			k.Fail("add-witness", "element %d: %v instead of %v", i, w, want)
		}
		if err := a.Verify(w, hv); err != nil {
			k.Fail("add-verify", "element %d: %v", i, err)
		}
		if k.Intn(12) == 0 { // store and continue with a recovered one
			if err := a.Flush(); err != nil {
				k.Fail("flush", "%v", err)
				return
			}
			if k.Intn(2) == 0 {
				a = fresh()
				if err := a.Recover(); err != nil || a.Len() != int64(i+1) {
					k.Fail("recover", "%v len %d of %d", err, a.Len(), i+1)
					return
				}
				k.Count("recoveries", 1)
			}
		}
	}
	if err := a.Flush(); err != nil {
		k.Fail("flush", "%v", err)
		return
	}
	for i := range data {
		if v, err := bk.Get(hs[i]); err != nil || !bytes.Equal(v, ds[i]) {
			k.Fail("data", "element %d of %d: %x %v instead of %x", i, n, v, err, ds[i])
			break
		}
		k.Count("data_read", 1)
	}
	b := fresh()
	if err := b.Recover(); err != nil || b.Height() != a.Height() {
		k.Fail("recover", "%v height %d of %d", err, b.Height(), a.Height())
		return
	}
	for _, acc := range []*mta.ExtAccumulator{a, b} {
		for r := 0; r < 12; r++ {
			i := k.Intn(n)
			if n <= 12 {
				i = r % n
			}
			w, err := acc.WitnessFor(int64(i))
			want := refWitness(hs, i)
			if err != nil || !sameWitness(w, want) {
				k.Fail("witness", "element %d of %d: %v %v instead of %v", i, n, w, err, want)
				continue
			}
			k.Count("witnesses", 1)
			if err := acc.Verify(w, hs[i]); err != nil {
				k.Fail("verify", "element %d of %d: %v", i, n, err)
			}
			if x := mta.HashesToWitness(mta.WitnessesToHashes(w), int64(i)&(1<<uint(len(w))-1)); !sameWitness(x, w) {
				k.Fail("witness-hashes", "element %d of %d", i, n)
			}
			if x := mta.GetHeightFromWitness(w, int64(n)); x != int64(i) {
				k.Fail("witness-position", "element %d of %d: %d", i, n, x)
			}
			nd, err := acc.GetNode(off + int64(i) + 1)
			if err != nil || !bytes.Equal(nd.Hash(), hs[i]) {
				k.Fail("node", "element %d of %d: %v", i, n, err)
			}
			// forged
			if err := acc.Verify(w, hs[(i+1)%n]); err == nil && n > 1 {
				k.Fail("verify-forged", "another element with the witness of %d of %d", i, n)
			}
			if len(w) > 0 {
				x := append([]mta.Witness{}, w...)
				j := k.Intn(len(x))
				if k.Intn(2) == 0 {
					x[j].HashValue = append([]byte{}, x[j].HashValue...)
					x[j].HashValue[k.Intn(32)] ^= 1
				} else if x[j].Direction == mta.Left {
					x[j].Direction = mta.Right
				} else {
					x[j].Direction = mta.Left
				}
				if err := acc.Verify(x, hs[i]); err == nil {
					k.Fail("verify-forged", "changed witness of %d of %d", i, n)
				}
			}
			// as of an earlier length
			m := i + 1 + k.Intn(n-i)
			at, ow, err := acc.WitnessForAt(off+int64(i)+1, off+int64(m), off)
			owant := refWitness(hs[:m], i)
			if err != nil || at != off+int64(m) || !sameWitness(ow, owant) {
				k.Fail("witness-at", "element %d of %d at %d: %v %v instead of %v", i, n, m, ow, err, owant)
				continue
			}
			if d := mta.GetDepthByHeightAndAccLength(int64(i), int64(m)); d != len(owant) {
				k.Fail("depth", "element %d at %d: %d instead of %d", i, m, d, len(owant))
			}
			if x := mta.GetHeightFromWitness(ow, int64(m)); x != int64(i) {
				k.Fail("witness-position", "element %d at %d: %d", i, m, x)
			}
			if err := acc.VerifyAt(ow, hs[i], off+int64(m), off); err != nil {
				k.Fail("verify-older", "witness of %d at %d for length %d: %v", i, m, n, err)
			}
			if err := acc.VerifyAt(ow, hs[(i+1)%n], off+int64(m), off); err == nil && n > 1 {
				k.Fail("verify-older-forged", "another element with the witness of %d at %d", i, m)
			}
			if len(ow) > 0 {
				x := append([]mta.Witness{}, ow...)
				j := k.Intn(len(x))
				x[j].HashValue = append([]byte{}, x[j].HashValue...)
				x[j].HashValue[k.Intn(32)] ^= 1
				if err := acc.VerifyAt(x, hs[i], off+int64(m), off); err == nil {
					k.Fail("verify-older-forged", "changed witness of %d at %d for length %d", i, m, n)
				}
			}
			// of a height it has not reached: as of what it has
			far := off + int64(n+1+k.Intn(200))
			if pn, site, val := mon.Guard(func() { at, ow, err = acc.WitnessForAt(off+int64(i)+1, far, off) }); pn {
				k.Fail("panic:"+site, "%v", val)
			} else if err != nil || at != off+int64(n) || !sameWitness(ow, want) {
				k.Fail("witness-far", "element %d at %d of %d: at %d %v %v", i, far, off+int64(n), at, ow, err)
			} else if err := acc.VerifyAt(ow, hs[i], far, off); err != nil {
				k.Fail("verify-far", "element %d at %d of %d: %v", i, far, off+int64(n), err)
			}
			if _, _, err := acc.WitnessForAt(off+int64(i)+1, off+int64(n), off+[]int64{-1, 1}[k.Intn(2)]); err == nil {
				k.Fail("witness-offset", "another offset than %d is accepted", off)
			}
			k.Count("other_lengths", 1)
		}
		if _, err := acc.WitnessFor(int64(n)); err == nil {
			k.Fail("witness-range", "witness of element %d of %d", n, n)
		}
		if _, err := acc.GetNode(off + int64(n) + 1); err == nil {
			k.Fail("node-range", "node %d of %d", n, n)
		}
	}
	if w := mta.NewExtAccumulator([]byte("acc"), bk, off+[]int64{-1, 1}[k.Intn(2)]); w.Recover() == nil {
		k.Fail("recover-offset", "recovered with offset %d instead of %d", w.Offset(), off)
	}
	// an older accumulator and a newer witness
	m := 1 + k.Intn(n)
	obk, _ := db.NewMapDB().GetBucket("")
	old := &mta.Accumulator{KeyForState: []byte("x"), Bucket: obk}
	for i := 0; i < m; i++ {
		old.AddData(ds[i])
	}
	for r := 0; r < 8; r++ {
		i := k.Intn(m)
		w := refWitness(hs, i)
		if err := old.VerifyWithAccLength(w, hs[i], int64(n)); err != nil {
			k.Fail("verify-newer", "witness of %d at %d for length %d: %v", i, n, m, err)
		}
		if err := old.VerifyWithAccLength(w, hs[(i+1)%n], int64(n)); err == nil && n > 1 {
			k.Fail("verify-newer-forged", "witness of %d at %d", i, n)
		}
		k.Count("newer_witnesses", 1)
	}
	if n > m {
		i := m + k.Intn(n-m)
		if err := old.VerifyWithAccLength(refWitness(hs, i), hs[i], int64(n)); err == nil {
			k.Fail("verify-newer-unknown", "element %d of %d verified by one of %d", i, n, m)
		}
	}
	for r := 0; r < 4; r++ { // a changed newer witness
		i := k.Intn(m)
		w, own := refWitness(hs, i), refWitness(hs[:m], i)
		if len(own) == 0 {
			continue
		}
		j := k.Intn(len(own))
		w[j].HashValue = append([]byte{}, w[j].HashValue...)
		w[j].HashValue[k.Intn(32)] ^= 1
		if err := old.VerifyWithAccLength(w, hs[i], int64(n)); err == nil {
			k.Fail("verify-newer-forged", "changed witness of %d at %d for length %d", i, n, m)
		}
	}
	// plain accumulator state
	if err := old.Flush(); err != nil {
		k.Fail("flush", "%v", err)
	}
	re := &mta.Accumulator{KeyForState: []byte("x"), Bucket: obk}
	if err := re.Recover(); err != nil || re.Len() != int64(m) {
		k.Fail("recover", "%v %d of %d", err, re.Len(), m)
	}
	for i := m; i < n; i++ {
		re.AddHash(hs[i])
	}
	i := k.Intn(n)
	if err := re.Verify(refWitness(hs, i), hs[i]); err != nil {
		k.Fail("recover-continue", "element %d of %d: %v", i, n, err)
	}
}

// tornBucket fails some of its writes.
type tornBucket struct {
	db.Bucket
	fail func() bool
}

func (b *tornBucket) Set(key, v []byte) error {
	if b.fail() {
		return errTorn
	}
	return b.Bucket.Set(key, v)
}

var errTorn = errors.New("no space")

// accumulatorFaults: a flush whose writes failed says so, and one that says it
// succeeded stored everything, whatever failed before.
func accumulatorFaults(k *mon.Case) {
	g := gen{k, false}
	base, _ := db.NewMapDB().GetBucket("")
	writes, failAt, failed := 0, -1, 0
	bk := &tornBucket{base, func() bool {
		writes++
		if failAt >= 0 && writes > failAt {
			failed++
			return true
		}
		return false
	}}
	plain := k.Intn(2) == 0
	type acc interface {
		AddData([]byte) []mta.Witness
		AddHash([]byte) []mta.Witness
		Flush() error
		Recover() error
		Len() int64
		WitnessFor(int64) ([]mta.Witness, error)
		Verify([]mta.Witness, []byte) error
	}
	fresh := func() acc {
		if plain {
			return &mta.Accumulator{KeyForState: []byte("acc"), Bucket: bk}
		}
		return mta.NewExtAccumulator([]byte("acc"), bk, 7)
	}
	a := fresh()
	var hs, ds [][]byte
	stored := 0
	var blob []byte
	story := ""
	for round := 2 + k.Intn(5); round > 0; round-- {
		for i := 1 + k.Intn(20); i > 0; i-- {
			d := append(g.bytes(k.Intn(20)), byte(len(hs)), byte(len(hs)>>8), 1)
			hs, ds = append(hs, mbtx.Sha3(d)), append(ds, d)
			a.AddData(d)
		}
		failAt, writes, failed = -1, 0, 0
		if k.Intn(2) == 0 {
			failAt = k.Intn(20)
		}
		err := a.Flush()
		story += fmt.Sprintf("%d elements, writes %d, failed %d; ", len(hs), writes, failed)
		k.Input("plain %v: %s", plain, story)
		if (err != nil) != (failed > 0) {
			k.Fail("flush-error", "%d writes failed and Flush returned %v", failed, err)
			return
		}
		k.Count("flushes", 1)
		if failed > 0 {
			k.Count("failed_flushes", 1)
		} else {
			stored = len(hs)
			blob, _ = base.Get([]byte("acc"))
		}
		if x, ok := a.(*mta.ExtAccumulator); ok && !bytes.Equal(x.Serialized(), blob) {
			k.Fail("serialized", "Serialized is %x and what is stored is %x", x.Serialized(), blob)
		}
		failAt = -1
		// what was stored is complete
		r := fresh()
		if k.Intn(3) == 0 { // used before
			r.AddData([]byte("other"))
			r.AddHash(mbtx.Sha3([]byte("another")))
		}
		if err := r.Recover(); err != nil || r.Len() != int64(stored) {
			k.Fail("recover", "%v, %d elements of %d", err, r.Len(), stored)
			return
		}
		if stored > 0 {
			for i := 0; i < 6; i++ {
				x := k.Intn(stored)
				w, err := r.WitnessFor(int64(x))
				if err != nil || !sameWitness(w, refWitness(hs[:stored], x)) || r.Verify(w, hs[x]) != nil {
					k.Fail("witness-after-fault", "element %d of %d: %v %v", x, stored, w, err)
					return
				}
				if v, err := base.Get(hs[x]); err != nil || !bytes.Equal(v, ds[x]) {
					k.Fail("data-after-fault", "element %d of %d: %x %v", x, stored, v, err)
					return
				}
			}
		}
		if failed == 0 && k.Intn(3) == 0 || failed > 0 && k.Intn(5) == 0 {
			a, hs, ds = r, hs[:stored:stored], ds[:stored:stored] // restart
		}
	}
	k.Seen("%s", story)
}

// proofPath builds the nodes from a root to a leaf with value.
func proofPath(k *mon.Case, value []byte) [][]byte {
	g := gen{k, false}
	leaf := rlpx.Enc([][]byte{append([]byte{0x20}, g.bytes(k.Intn(5))...), value})
	if k.Intn(2) == 0 {
		leaf = rlpx.Enc([][]byte{append([]byte{0x30 + byte(k.Intn(16))}, g.bytes(k.Intn(5))...), value})
	}
	path := [][]byte{leaf}
	for d := k.Intn(5); d > 0; d-- {
		h := mbtx.Sha3(path[0])
		var n []byte
		if k.Intn(2) == 0 {
			n = rlpx.Enc([][]byte{append([]byte{byte(k.Intn(2)) << 4}, g.bytes(k.Intn(5))...), h})
		} else {
			var l [][]byte
			for i := 0; i < 17; i++ {
				l = append(l, []byte{})
				if i == 16 && k.Intn(2) == 0 {
					l[i] = g.bytes(k.Intn(40))
				} else if k.Intn(2) == 0 && i < 16 {
					l[i] = g.bytes(32)
				}
			}
			l[k.Intn(16)] = h
			n = rlpx.Enc(l)
		}
		path = append([][]byte{n}, path...)
	}
	return path
}

// wireItems are the items of a list of bytes.
func wireItems(b []byte) [][]byte {
	v, err := rlpx.DecAll(b)
	if err != nil {
		return nil
	}
	var r [][]byte
	for _, x := range v.L {
		r = append(r, x.B)
	}
	return r
}

// trieLinks: a node on top whose link is only like the hash of the next one.
func trieLinks(k *mon.Case, path [][]byte) {
	g := gen{k, false}
	h := mbtx.Sha3(path[0])
	like := append([]byte{}, h...)
	switch k.Intn(4) {
	case 0:
		like = like[:k.Intn(32)]
	case 1:
		like = append(like, g.bytes(1+k.Intn(3))...)
	case 2:
		like[k.Intn(32)] ^= byte(1 + k.Intn(255))
	case 3:
		copy(like[4:], g.bytes(28))
	}
	var n []byte
	if k.Intn(2) == 0 {
		n = rlpx.Enc([][]byte{append([]byte{byte(k.Intn(2)) << 4}, g.bytes(k.Intn(5))...), like})
	} else {
		l := make([][]byte, 17)
		for i := range l {
			l[i] = []byte{}
		}
		l[k.Intn(16)] = like
		n = rlpx.Enc(l)
	}
	bad := append([][]byte{n}, path...)
	if bytes.Equal(like, h) {
		return
	}
	var err error
	if pn, site, val := mon.Guard(func() { _, err = mpt.NewMptProof(bad) }); pn {
		k.Fail("panic:"+site, "%v", val)
	} else if err == nil {
		k.Fail("forged-link", "a node with link %x accepted before one with hash %x", like, h)
	}
	k.Count("links", 1)
}

// trieProof: a chain of nodes is accepted exactly if each links to the next.
func trieProof(k *mon.Case) {
	g := gen{k, false}
	value := g.bytes(1 + k.Intn(60))
	path := proofPath(k, value)
	k.Input("%d nodes", len(path))
	k.Seen("%x", path[0])
	p, err := mpt.NewMptProof(path)
	if err != nil {
		k.Fail("valid", "%v", err)
		return
	}
	if !bytes.Equal(p.Leaf().Data, value) || !bytes.Equal(p.Hashes[0], mbtx.Sha3(path[0])) || len(p.Nodes) != len(path) {
		k.Fail("leaf", "%x instead of %x", p.Leaf().Data, value)
	}
	k.Count("valid", 1)
	bad := make([][]byte, len(path))
	for i := range path {
		bad[i] = append([]byte{}, path[i]...)
	}
	for i, b := range path { // a branch keeps its links and its value
		v, n := wireItems(b), p.Nodes[i]
		if len(v) == 17 && (len(n.Link) != 16 || !bytes.Equal(n.Data, v[16])) {
			k.Fail("branch", "node %d has %d links and value %x instead of %x", i, len(n.Link), n.Data, v[16])
		}
		for j := 0; len(v) == 17 && j < len(n.Link); j++ {
			if !bytes.Equal(n.Link[j].Hash, v[j]) {
				k.Fail("branch", "link %d of node %d is %x instead of %x", j, i, n.Link[j].Hash, v[j])
			}
		}
	}
	trieLinks(k, path)
	op := k.Intn(6)
	i := k.Intn(len(bad))
	must := len(path) > 1 && i > 0
	switch op {
	case 0: // changed
		bad[i][k.Intn(len(bad[i]))] ^= byte(1 << uint(k.Intn(8)))
	case 1: // a node left out
		bad = append(bad[:i:i], bad[i+1:]...)
		must = len(path) > 1 && i > 0
	case 2: // truncated
		bad[i] = bad[i][:k.Intn(len(bad[i]))]
	case 3: // doubled
		bad = append(bad, bad[len(bad)-1])
		must = false
	case 4: // a short list
		bad[i] = rlpx.Enc([][]byte{{}, {}})
		if k.Intn(2) == 0 {
			bad[i] = rlpx.Enc([]interface{}{nil, g.bytes(32)})
		}
	case 5:
		bad[i] = g.bytes(k.Intn(40))
	}
	k.Input("%d nodes, change %d at %d: %x", len(path), op, i, bad)
	var q *mpt.MptProof
	if pn, site, val := mon.Guard(func() { q, err = mpt.NewMptProof(bad) }); pn {
		k.Fail("panic:"+site, "%v", val)
		return
	}
	if err == nil {
		k.Count("accepted", 1)
		if must {
			k.Fail("forged", "change %d of node %d of %d accepted", op, i, len(path))
		}
		if pn, site, val := mon.Guard(func() { q.Leaf() }); pn {
			k.Fail("panic:"+site, "%v", val)
		}
	} else {
		k.Count("refused", 1)
	}
}
