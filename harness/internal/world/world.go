// Package world builds a source chain with a plan of blocks to produce and the
// destination verifier that has to receive exactly those messages.
package world

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/icon/bridge"
	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"

	"verifharness/internal/sim"
)

// Profile bounds the generated plan.
type Profile struct {
	Blocks   int // at most
	MaxMsgs  int
	Sizes    []int // candidate sizes
	Empty    float64
	SeqStart int64 // sequence before the first message
	WS       bool  // eth: websocket endpoint
	Node     *sim.IconNode
	ProofPad int // largest extra size of block proofs
}

type planned struct {
	height int64
	sizes  []int
	ctx    bool
	txs    [][]sim.EthEvent
}

// World is one source chain and its destination verifier.
type World struct {
	Kind    string // btp2, bridge, eth
	Icon    *sim.IconNode
	Src     *sim.Source
	Eth     *sim.EthNode
	SrcAddr string
	DstAddr string
	V       sim.Verifier
	WS      bool
	Desc    string

	mu       sync.Mutex
	r        *rand.Rand
	plan     []planned
	next     int
	expected [][]byte // of produced blocks
	seq      int64
	place    map[int64][2]int64 // height and transaction of a sequence
}

// New makes a world; every choice comes from r.
func New(kind string, r *rand.Rand, p Profile, dstAddr string) *World {
	w := &World{Kind: kind, DstAddr: dstAddr, r: rand.New(rand.NewSource(r.Int63())), WS: p.WS, seq: p.SeqStart, place: map[int64][2]int64{}}
	tag := uint64(r.Int63())
	nb := 1 + r.Intn(p.Blocks)
	var d []string
	counts := func() []int {
		if r.Float64() < p.Empty {
			return nil
		}
		n := 1
		switch r.Intn(4) {
		case 0:
		case 1:
			n = 1 + r.Intn(3)
		default:
			n = 1 + r.Intn(p.MaxMsgs)
		}
		s := make([]int, n)
		for i := range s {
			s[i] = p.Sizes[r.Intn(len(p.Sizes))]
		}
		return s
	}
	switch kind {
	case "btp2", "bridge":
		bmc := "cx" + fmt.Sprintf("%040x", tag)
		w.Icon = p.Node
		if w.Icon == nil {
			w.Icon = sim.NewIconNode("0x3", bmc)
		}
		w.SrcAddr = w.Icon.Addr
		start := int64(1 + r.Intn(1000))
		off := int64(0)
		if kind == "bridge" {
			off = p.SeqStart
		}
		w.Src = sim.NewSource(int64(1+r.Intn(300)), start, off, tag)
		w.Icon.Src, w.Icon.DstAddr = w.Src, dstAddr
		if p.ProofPad > 0 {
			w.Src.ProofPad = r.Intn(p.ProofPad)
		}
		if kind == "btp2" {
			w.V = sim.NewBTPBlockBMV(w.Src, p.SeqStart)
		} else {
			// the bridge verifier starts at a height, with nothing received
			bv := sim.NewBridgeBMV(dstAddr, off, start+1)
			bv.PlaceOf = w.placeOf
			w.V = bv
		}
		h := start + 1
		for i := 0; i < nb; i++ {
			h += int64(1 + r.Intn(3))
			if r.Intn(10) == 0 {
				h += int64(r.Intn(300))
			}
			s := counts()
			w.plan = append(w.plan, planned{height: h, sizes: s, ctx: len(s) == 0 || r.Intn(6) == 0})
			d = append(d, fmt.Sprintf("%d:%v", h, s))
		}
	case "eth":
		w.Eth = sim.NewEthNode("0x1", 31337, r)
		w.SrcAddr = w.Eth.Addr
		pre := 1 + r.Intn(4)
		for i := 0; i < pre; i++ {
			w.Eth.AddBlock(nil)
		}
		bv := sim.NewBridgeBMV(dstAddr, p.SeqStart, int64(pre))
		bv.PlaceOf = w.placeOf
		w.V = bv
		seq, other := p.SeqStart, p.SeqStart/2
		h := int64(pre)
		for i := 0; i < nb; i++ {
			h++
			s := counts()
			var txs [][]sim.EthEvent
			var cur []sim.EthEvent
			for _, z := range s {
				if r.Intn(5) == 0 { // a message to another network
					other++
					next := "btp://0x77.icon/cx" + strings.Repeat("00", 20)
					if r.Intn(2) == 0 { // of the same network, another contract
						next = dstAddr[:len(dstAddr)-2] + "0f"
					}
					cur = append(cur, sim.EthEvent{Next: next, Seq: other, Msg: []byte("other")})
				}
				if r.Intn(12) == 0 { // same event, another contract
					cur = append(cur, sim.EthEvent{Next: dstAddr, Seq: seq + 1, Msg: []byte("forged"), Addr: common.HexToAddress("0x1234")})
				}
				if len(cur) > 0 && r.Intn(3) == 0 {
					txs = append(txs, cur)
					cur = nil
					if r.Intn(4) == 0 {
						txs = append(txs, nil)
					}
				}
				seq++
				cur = append(cur, sim.EthEvent{Next: dstAddr, Seq: seq, Msg: sim.Message(tag, seq, z, w.r)})
			}
			if len(cur) > 0 {
				txs = append(txs, cur)
			}
			w.plan = append(w.plan, planned{height: h, txs: txs, sizes: s})
			d = append(d, fmt.Sprintf("%d:%v", h, s))
		}
	default:
		panic("kind " + kind)
	}
	w.Desc = fmt.Sprintf("%s start=%d blocks[height:sizes] %s", kind, p.SeqStart, strings.Join(d, " "))
	return w
}

// Step produces the next planned block; false if the plan is finished.
func (w *World) Step() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.next >= len(w.plan) {
		return false
	}
	p := w.plan[w.next]
	w.next++
	if w.Eth != nil {
		for i, t := range p.txs {
			for _, e := range t {
				if e.Next == w.DstAddr && e.Addr == (common.Address{}) {
					w.expected = append(w.expected, e.Msg)
					w.place[e.Seq] = [2]int64{p.height, int64(i)}
				}
			}
		}
		w.Eth.AddBlock(p.txs)
		return true
	}
	b := w.Src.AddSized(w.r, p.height, p.sizes, p.ctx)
	w.expected = append(w.expected, b.Msgs...)
	for range b.Msgs {
		w.seq++
		w.place[w.seq] = [2]int64{p.height, -1}
	}
	return true
}

func (w *World) placeOf(seq int64) (int64, int64) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p, ok := w.place[seq]
	if !ok {
		return -1, -1
	}
	return p[0], p[1]
}

func (w *World) Left() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.plan) - w.next }

// Expected gives the messages of the blocks produced so far.
func (w *World) Expected() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([][]byte{}, w.expected...)
}

// Check compares what was delivered with what was produced. complete requires
// everything to be there; otherwise a prefix is enough.
func (w *World) Check(complete bool) (sig, detail string) {
	want, got := w.Expected(), w.V.Delivered()
	for i, g := range got {
		if i >= len(want) {
			return "extra", fmt.Sprintf("%d delivered, only %d sent", len(got), len(want))
		}
		if !bytes.Equal(g, want[i]) {
			for j := range want {
				if bytes.Equal(g, want[j]) {
					return "order", fmt.Sprintf("delivery %d is message %d", i, j)
				}
			}
			return "content", fmt.Sprintf("delivery %d has %d bytes %.40x, sent %d bytes %.40x", i, len(g), g, len(want[i]), want[i])
		}
	}
	if complete && len(got) < len(want) {
		return "missing", fmt.Sprintf("%d of %d messages delivered", len(got), len(want))
	}
	if bv, ok := w.V.(*sim.BridgeBMV); ok {
		if bv.WrongNext > 0 {
			return "next", "event relayed with another destination"
		}
		if bv.BadHgt != "" {
			return "height", bv.BadHgt
		}
	}
	return "", ""
}

func (w *World) Done() bool {
	return w.Left() == 0 && len(w.V.Delivered()) >= len(w.Expected())
}

func (w *World) Endpoint() string {
	if w.Eth != nil {
		if w.WS {
			return w.Eth.WS()
		}
		return w.Eth.HTTP()
	}
	return w.Icon.Endpoint()
}

// Receiver makes the repository's receiver for this source.
func (w *World) Receiver(l log.Logger) link.Receiver {
	src, dst := types.BtpAddress(w.SrcAddr), types.BtpAddress(w.DstAddr)
	switch w.Kind {
	case "btp2":
		return btp2.NewBTP2(src, dst, w.Endpoint(), l)
	case "bridge":
		return bridge.NewBridge(src, dst, w.Endpoint(), l)
	}
	return ethbr.NewEthBridge(src, dst, w.Endpoint(), l)
}

// Problems are protocol violations seen by the source node.
func (w *World) Problems() []string {
	if w.Eth != nil {
		return w.Eth.ProblemList()
	}
	return w.Icon.ProblemList()
}

// Drop closes the connections of the source node.
func (w *World) Drop() {
	if w.Eth != nil {
		w.Eth.DropConns()
	} else {
		w.Icon.DropConns()
	}
}

func (w *World) Close() {
	if w.Eth != nil {
		w.Eth.Close()
	} else {
		w.Icon.Close()
	}
}

func (w *World) Requests() int64 {
	m := map[string]int{}
	if w.Eth != nil {
		m = w.Eth.Counts()
	} else {
		m = w.Icon.Counts()
	}
	n := 0
	for _, v := range m {
		n += v
	}
	return int64(n)
}
