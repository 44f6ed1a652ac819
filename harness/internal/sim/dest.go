package sim

import (
	"bytes"
	"fmt"
	"sync"

	"verifharness/internal/mbtx"
	"verifharness/internal/rlpx"
)

type Status struct {
	TxSeq, RxSeq, Height int64
	Extra                []byte
}

// Revert codes of the destination contracts.
const (
	BMCRevertUnauthorized = 11
	BMVUnknown            = 25
	BMVNotVerifiable      = 26
	BMVAlreadyVerified    = 27
)

// Verifier is a destination BMV together with the BMC's receive side.
type Verifier interface {
	Status() Status
	// Handle executes one relay message; code 0 is success.
	Handle(msg []byte) (code int, why string)
	Delivered() [][]byte
}

// --- BTP block verifier

type BTPBlockBMV struct {
	mu        sync.Mutex
	src       *Source
	off       int64 // of the message contract's sequence
	lastSeq   int64
	firstSN   int64
	count     int64
	root      []byte
	height    int64
	ns        []byte
	delivered [][]byte
	BUs, MPs  int
	Partial   int
}

// NewBTPBlockBMV starts from the first block of the source network.
func NewBTPBlockBMV(src *Source, off int64) *BTPBlockBMV {
	f := src.First()
	return &BTPBlockBMV{src: src, off: off, firstSN: f.FirstSN, count: int64(len(f.Msgs)), root: f.Root, height: f.Height, ns: f.NS}
}

func (v *BTPBlockBMV) Status() Status {
	v.mu.Lock()
	defer v.mu.Unlock()
	return Status{RxSeq: v.off + v.lastSeq, Height: v.height,
		Extra: rlpx.Enc([]interface{}{v.off, v.firstSN, v.count})}
}

func (v *BTPBlockBMV) Delivered() [][]byte {
	v.mu.Lock()
	defer v.mu.Unlock()
	return append([][]byte{}, v.delivered...)
}

func (v *BTPBlockBMV) Handle(msg []byte) (code int, why string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	type st struct {
		lastSeq, firstSN, count, height int64
		root, ns                        []byte
	}
	save := st{v.lastSeq, v.firstSN, v.count, v.height, v.root, v.ns}
	n := len(v.delivered)
	bus, mps, part := v.BUs, v.MPs, v.Partial
	code, why = v.handle(msg)
	if code != 0 {
		v.lastSeq, v.firstSN, v.count, v.height, v.root, v.ns = save.lastSeq, save.firstSN, save.count, save.height, save.root, save.ns
		v.delivered = v.delivered[:n]
		v.BUs, v.MPs, v.Partial = bus, mps, part
	}
	return
}

func (v *BTPBlockBMV) handle(msg []byte) (int, string) {
	rm, err := rlpx.DecAll(msg)
	if err != nil || !rm.IsList || len(rm.L) != 1 || !rm.L[0].IsList {
		return BMVUnknown, fmt.Sprintf("malformed relay message: %v", err)
	}
	haveBU := false
	for _, it := range rm.L[0].L {
		if !it.IsList || len(it.L) != 2 || it.L[1].IsList {
			return BMVUnknown, "malformed item"
		}
		p, err := rlpx.DecAll(it.L[1].B)
		if err != nil || !p.IsList {
			return BMVUnknown, fmt.Sprintf("malformed payload: %v", err)
		}
		switch it.L[0].Int() {
		case 1:
			if c, w := v.blockUpdate(p); c != 0 {
				return c, w
			}
			haveBU = true
			v.BUs++
		case 2:
			if c, w := v.messageProof(p, haveBU); c != 0 {
				return c, w
			}
			v.MPs++
		default:
			return BMVUnknown, "unknown item type"
		}
	}
	return 0, ""
}

func (v *BTPBlockBMV) blockUpdate(p *rlpx.Item) (int, string) {
	if len(p.L) != 2 {
		return BMVUnknown, "malformed block update"
	}
	h, err := rlpx.DecAll(p.L[0].B)
	if err != nil || !h.IsList || len(h.L) != 10 {
		return BMVUnknown, fmt.Sprintf("malformed header: %v", err)
	}
	first := h.L[5].Int() >> 1
	switch next := v.firstSN + v.count; {
	case next > first:
		return BMVAlreadyVerified, "already verified"
	case next < first:
		return BMVNotVerifiable, "not verifiable blockUpdate"
	}
	if v.count-(v.lastSeq-v.firstSN) != 0 {
		return BMVUnknown, "remain must be zero"
	}
	if h.L[4].Int() != v.src.NID {
		return BMVUnknown, "invalid network id"
	}
	if !bytes.Equal(h.L[6].B, v.ns) {
		return BMVUnknown, "mismatch networkSectionHash"
	}
	b := v.src.ByHeight(h.L[0].Int())
	if b == nil || !bytes.Equal(b.Header, p.L[0].B) || !bytes.Equal(b.Proof, p.L[1].B) {
		return BMVUnknown, "header or proof was not issued by the source"
	}
	v.root, v.count, v.firstSN, v.ns, v.height = b.Root, int64(len(b.Msgs)), b.FirstSN, b.NS, b.Height
	return 0, ""
}

func nodes(it *rlpx.Item) ([]mbtx.Node, bool) {
	if !it.IsList {
		return nil, false
	}
	var r []mbtx.Node
	for _, n := range it.L {
		if !n.IsList || len(n.L) != 2 {
			return nil, false
		}
		r = append(r, mbtx.Node{N: int(n.L[0].Int()), V: n.L[1].B})
	}
	return r, true
}

func (v *BTPBlockBMV) messageProof(p *rlpx.Item, haveBU bool) (int, string) {
	if len(p.L) != 3 || !p.L[1].IsList {
		return BMVUnknown, "malformed message proof"
	}
	l, ok1 := nodes(p.L[0])
	r, ok2 := nodes(p.L[2])
	if !ok1 || !ok2 {
		return BMVUnknown, "malformed proof nodes"
	}
	processed := v.lastSeq - v.firstSN
	if v.count-processed <= 0 {
		return BMVUnknown, "remaining message count must greater than zero"
	}
	left := 0
	for _, n := range l {
		left += n.N
	}
	if int64(left) != processed {
		return BMVUnknown, fmt.Sprintf("invalid ProofInLeft.NumberOfLeaf %d expected %d", left, processed)
	}
	if haveBU && left > 0 {
		return BMVUnknown, "ProofInLeft should be empty"
	}
	var msgs [][]byte
	for _, m := range p.L[1].L {
		if m.IsList {
			return BMVUnknown, "malformed message"
		}
		msgs = append(msgs, m.B)
	}
	if !mbtx.Verify(mbtx.Keccak, l, msgs, r, left, int(v.count), v.root) {
		return BMVUnknown, "mismatch MessagesRoot"
	}
	for _, m := range msgs {
		v.delivered = append(v.delivered, append([]byte{}, m...))
	}
	v.lastSeq += int64(len(msgs))
	if v.lastSeq-v.firstSN < v.count {
		v.Partial++
	}
	return 0, ""
}

// --- bridge verifier (also used for the events of an Ethereum source)

type BridgeBMV struct {
	mu        sync.Mutex
	Next      string
	rxSeq     int64
	height    int64
	delivered [][]byte
	Ignored   int // events below the expected sequence
	Receipts  int
	WrongNext int
	// PlaceOf, if set, gives the source height and transaction (-1 if there is
	// none) of a sequence.
	PlaceOf func(seq int64) (int64, int64)
	BadHgt  string
}

func NewBridgeBMV(next string, rxSeq, height int64) *BridgeBMV {
	return &BridgeBMV{Next: next, rxSeq: rxSeq, height: height}
}

func (v *BridgeBMV) Status() Status {
	v.mu.Lock()
	defer v.mu.Unlock()
	return Status{RxSeq: v.rxSeq, Height: v.height}
}

func (v *BridgeBMV) Delivered() [][]byte {
	v.mu.Lock()
	defer v.mu.Unlock()
	return append([][]byte{}, v.delivered...)
}

func (v *BridgeBMV) Handle(msg []byte) (int, string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	rm, err := rlpx.DecAll(msg)
	if err != nil || !rm.IsList || len(rm.L) != 1 || !rm.L[0].IsList {
		return BMVUnknown, fmt.Sprintf("malformed relay message: %v", err)
	}
	next, height := v.rxSeq+1, v.height
	var got [][]byte
	ign, rec := 0, 0
	for _, rb := range rm.L[0].L {
		rp, err := rlpx.DecAll(rb.B)
		if rb.IsList || err != nil || !rp.IsList || len(rp.L) != 3 {
			return BMVUnknown, fmt.Sprintf("malformed receipt: %v", err)
		}
		h := rp.L[2].Int()
		if h < height {
			continue
		}
		height = h
		rec++
		evs, err := rlpx.DecAll(rp.L[1].B)
		if err != nil || !evs.IsList {
			return BMVUnknown, fmt.Sprintf("malformed events: %v", err)
		}
		for _, e := range evs.L {
			if !e.IsList || len(e.L) != 3 {
				return BMVUnknown, "malformed event"
			}
			if string(e.L[0].B) != v.Next {
				v.WrongNext++
			}
			seq := e.L[1].Int()
			if seq < next {
				ign++
				continue
			}
			if seq > next {
				return BMVNotVerifiable, fmt.Sprintf("notVerifiable seq:%d expected:%d", seq, next)
			}
			if v.PlaceOf != nil {
				if wh, wi := v.PlaceOf(seq); wh != h || (wi >= 0 && wi != rp.L[0].Int()) {
					v.BadHgt = fmt.Sprintf("seq %d relayed as of height %d transaction %d, happened at %d/%d", seq, h, rp.L[0].Int(), wh, wi)
				}
			}
			got = append(got, append([]byte{}, e.L[2].B...))
			next++
		}
	}
	v.rxSeq, v.height = next-1, height
	v.delivered = append(v.delivered, got...)
	v.Ignored += ign
	v.Receipts += rec
	return 0, ""
}
