// Package sim holds the simulated chains the relay under test talks to: an
// ICON style node (JSON-RPC + websocket), an Ethereum style node, and models of
// the destination contracts written from doc/*.md and the BMV/BMC contracts.
package sim

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"

	"verifharness/internal/mbtx"
	"verifharness/internal/rlpx"
)

// Block is one BTP block of a source network.
type Block struct {
	Height  int64
	Update  int64 // firstMessageSN<<1 | contextChanged
	FirstSN int64
	Msgs    [][]byte
	Prev    []byte
	NS      []byte
	Root    []byte
	Header  []byte
	Proof   []byte
}

// Source is the BTP network of the source chain towards one link.
type Source struct {
	mu          sync.Mutex
	NID         int64
	StartHeight int64
	LinkOffset  int64 // BMC sequence = LinkOffset + 1 + SN
	blocks      []*Block
	sn          int64
	changed     chan struct{}
	tag         uint64
	ProofPad    int // extra bytes of block proofs, as of many validators
}

func NewSource(nid, start, offset int64, tag uint64) *Source {
	s := &Source{NID: nid, StartHeight: start, LinkOffset: offset, changed: make(chan struct{}), tag: tag}
	s.Add(start+1, nil, true) // first block of the network
	return s
}

func (s *Source) Add(height int64, msgs [][]byte, ctxChanged bool) *Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := &Block{Height: height, FirstSN: s.sn, Msgs: msgs}
	b.Update = b.FirstSN << 1
	if ctxChanged {
		b.Update |= 1
	}
	if n := len(s.blocks); n > 0 {
		b.Prev = s.blocks[n-1].NS
		if s.blocks[n-1].Height >= height {
			panic("sim: heights must increase")
		}
	}
	b.Root = mbtx.Root(mbtx.Keccak, msgs)
	null := func(x []byte) interface{} {
		if x == nil {
			return nil
		}
		return x
	}
	var ctx interface{}
	ctxHash := mbtx.Keccak([]byte("ctx"))
	if ctxChanged {
		c := []byte(fmt.Sprintf("ctx-%d", height))
		ctx = c
		ctxHash = mbtx.Keccak(c)
	}
	b.NS = mbtx.Keccak(rlpx.Enc([]interface{}{s.NID, b.Update, null(b.Prev), int64(len(msgs)), null(b.Root)}))
	b.Header = rlpx.Enc([]interface{}{height, int64(height % 3), ctxHash, []interface{}{}, s.NID, b.Update,
		null(b.Prev), int64(len(msgs)), null(b.Root), ctx})
	b.Proof = append([]byte("proof-of-"), mbtx.Keccak(b.Header, []byte{byte(s.tag)})...)
	b.Proof = append(b.Proof, make([]byte, s.ProofPad)...)
	s.sn += int64(len(msgs))
	s.blocks = append(s.blocks, b)
	close(s.changed)
	s.changed = make(chan struct{})
	return b
}

// Message makes a message with unique, recognizable content.
func Message(tag uint64, sn int64, size int, r *rand.Rand) []byte {
	b := make([]byte, 0, size+16)
	var h [16]byte
	binary.BigEndian.PutUint64(h[:], tag)
	binary.BigEndian.PutUint64(h[8:], uint64(sn))
	b = append(b, h[:]...)
	for len(b) < size {
		b = append(b, byte(r.Intn(256)))
	}
	return b
}

func (s *Source) AddSized(r *rand.Rand, height int64, sizes []int, ctxChanged bool) *Block {
	s.mu.Lock()
	sn := s.sn
	s.mu.Unlock()
	var msgs [][]byte
	for i, z := range sizes {
		msgs = append(msgs, Message(s.tag, sn+int64(i), z, r))
	}
	return s.Add(height, msgs, ctxChanged)
}

func (s *Source) Last() *Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.blocks[len(s.blocks)-1]
}

func (s *Source) First() *Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.blocks[0]
}

func (s *Source) ByHeight(h int64) *Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, b := range s.blocks {
		if b.Height == h {
			return b
		}
	}
	return nil
}

// From gives the first block with height >= h, and the change signal.
func (s *Source) From(h int64) (*Block, <-chan struct{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, b := range s.blocks {
		if b.Height >= h {
			return b, s.changed
		}
	}
	return nil, s.changed
}

func (s *Source) Blocks() []*Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Block{}, s.blocks...)
}

// All gives every message in source order.
func (s *Source) All() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	var r [][]byte
	for _, b := range s.blocks {
		r = append(r, b.Msgs...)
	}
	return r
}
