package main

import (
	"crypto/ecdsa"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/crypto"

	"verifharness/internal/mon"
	"verifharness/internal/sim"
	"verifharness/internal/world"
)

// e2e is the real relay process between simulated chains.
type e2e struct {
	w       *world.World
	w2      *world.World // opposite direction, if any
	dstIcon *sim.IconNode
	dstEth  *sim.EthNode
	relay   *sim.Relay
	desc    string
	exits   []string
}

var e2eSeq struct {
	sync.Mutex
	n int
}

func newE2E(k *mon.Case, kind, dst string, p world.Profile) *e2e {
	bin := os.Getenv("VERIF_RELAY")
	if bin == "" {
		panic("VERIF_RELAY is not set")
	}
	e2eSeq.Lock()
	e2eSeq.n++
	dir := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("relay-%d", e2eSeq.n))
	e2eSeq.Unlock()
	e := &e2e{}
	r := k.Rand
	var dk, sk *ecdsa.PrivateKey = sim.Key(r), sim.Key(r)
	var ds, ss sim.Side
	both := dst == "both"
	if both {
		a := sim.NewIconNode("0x3", "cx"+fmt.Sprintf("%040x", r.Int63()))
		b := sim.NewIconNode("0x2", "cx"+fmt.Sprintf("%040x", r.Int63()))
		p.Node = a
		e.w = world.New(kind, r, p, b.Addr)
		p2 := p
		p2.Node = b
		kind2 := []string{"btp2", "bridge"}[r.Intn(2)]
		e.w2 = world.New(kind2, r, p2, a.Addr)
		b.Dst, b.PrevAddr = e.w.V, a.Addr
		a.Dst, a.PrevAddr = e.w2.V, b.Addr
		b.Relays[sim.IconAddr(dk)] = true
		a.Relays[sim.IconAddr(sk)] = true
		e.dstIcon = b
		ds = sim.Side{Address: b.Addr, Endpoint: b.Endpoint(), KeyStore: sim.IconKeyStore(dk, "pw1"), Password: "pw1", Bridge: kind2 == "bridge"}
		ss = sim.Side{Address: a.Addr, Endpoint: a.Endpoint(), KeyStore: sim.IconKeyStore(sk, "pw2"), Password: "pw2", Bridge: kind == "bridge"}
		e.relay = &sim.Relay{Bin: bin, Dir: dir, Src: ss, Dst: ds, Direction: "both"}
		e.desc = "both directions: " + e.w.Desc + " / " + e.w2.Desc
		return e
	}
	switch dst {
	case "icon":
		e.dstIcon = sim.NewIconNode("0x2", "cx"+fmt.Sprintf("%040x", r.Int63()))
		e.w = world.New(kind, r, p, e.dstIcon.Addr)
		e.dstIcon.Dst, e.dstIcon.PrevAddr = e.w.V, e.w.SrcAddr
		e.dstIcon.Relays[sim.IconAddr(dk)] = true
		ds = sim.Side{Address: e.dstIcon.Addr, Endpoint: e.dstIcon.Endpoint(), KeyStore: sim.IconKeyStore(dk, "dst-pw"), Password: "dst-pw"}
		if r.Intn(2) == 0 {
			pace := rand.New(rand.NewSource(r.Int63()))
			e.dstIcon.Pace = func(int) (int, int) {
				if pace.Intn(4) == 0 {
					return pace.Intn(2), pace.Intn(2)
				}
				return 0, 0
			}
		}
	case "eth":
		e.dstEth = sim.NewEthNode("0x9", 1337, r)
		e.w = world.New(kind, r, p, e.dstEth.Addr)
		e.dstEth.Dst, e.dstEth.PrevAddr = e.w.V, e.w.SrcAddr
		e.dstEth.Relays[crypto.PubkeyToAddress(dk.PublicKey)] = true
		ds = sim.Side{Address: e.dstEth.Addr, Endpoint: e.dstEth.HTTP(), KeyStore: sim.EvmKeyStore(dk, "dst-pw"), Password: "dst-pw"}
		if r.Intn(2) == 0 {
			ds.Endpoint = e.dstEth.WS()
		}
	}
	ss = sim.Side{Address: e.w.SrcAddr, Endpoint: e.w.Endpoint(), KeyStore: sim.IconKeyStore(sk, "src-pw"), Password: "src-pw", Bridge: kind == "bridge"}
	e.relay = &sim.Relay{Bin: bin, Dir: dir, Src: ss, Dst: ds, Direction: "front"}
	if r.Intn(3) == 0 {
		e.relay.Src, e.relay.Dst, e.relay.Direction = ds, ss, "reverse"
	}
	e.desc = fmt.Sprintf("to %s direction=%s %s", dst, e.relay.Direction, e.w.Desc)
	return e
}

func (e *e2e) close() {
	e.relay.Kill()
	e.w.Close()
	if e.w2 != nil {
		e.w2.Close()
	}
	if e.dstIcon != nil {
		e.dstIcon.Close()
	}
	if e.dstEth != nil {
		e.dstEth.Close()
	}
	os.RemoveAll(e.relay.Dir)
}

func (e *e2e) delivered() int {
	n := len(e.w.V.Delivered())
	if e.w2 != nil {
		n += len(e.w2.V.Delivered())
	}
	return n
}

func (e *e2e) done() bool { return e.w.Done() && (e.w2 == nil || e.w2.Done()) }

func (e *e2e) problems() []string {
	p := e.w.Problems()
	if e.dstIcon != nil {
		p = append(p, e.dstIcon.ProblemList()...)
	}
	if e.dstEth != nil {
		p = append(p, e.dstEth.ProblemList()...)
	}
	return p
}

// history lists the destination transactions.
func (e *e2e) history() (txs []string, rejected string) {
	add := func(size, code int, why, kind string) {
		txs = append(txs, fmt.Sprintf("%s%d/%d", kind, size, code))
		if code != 0 && rejected == "" {
			rejected = fmt.Sprintf("transaction %d rejected with %d %s", len(txs)-1, code, why)
		}
	}
	if e.dstIcon != nil {
		for _, t := range e.dstIcon.Txs() {
			kind := ""
			if t.Method == "handleFragment" {
				kind = fmt.Sprintf("f%d:", t.Index)
			}
			add(len(t.Msg), t.Code, t.Why, kind)
		}
	}
	if e.w2 != nil {
		for _, t := range e.w.Icon.Txs() {
			add(len(t.Msg), t.Code, t.Why, "r")
		}
	}
	if e.dstEth != nil {
		for _, t := range e.dstEth.Txs() {
			add(len(t.Msg), t.Code, t.Why, "")
		}
	}
	return
}

// runtimeCrash reports a crash of the relay that is not a deliberate stop.
func runtimeCrash(out string) (string, string, bool) {
	kind, site, text := sim.Crash(out)
	if kind == "" {
		return "", "", false
	}
	for _, m := range []string{"runtime error", "fatal error", "close of closed", "send on closed", "close of nil", "DATA RACE", "interface conversion", "reflect"} {
		if strings.Contains(kind, m) {
			return "relay-crash:" + site, text, true
		}
	}
	return "", "", false
}

// supervise runs the relay, restarting it when it stops, until cond or a stall.
// tick is called about every 5 ms while the relay lives.
func (e *e2e) supervise(k *mon.Case, maxRestarts int, cond func() bool, tick func()) string {
	last, n := time.Now(), e.delivered()
	e.relay.Launch()
	for {
		if d := e.delivered(); d != n {
			n, last = d, time.Now()
		}
		if cond() {
			return "done"
		}
		if !e.relay.Alive() {
			code, sig, out := e.relay.Exit()
			if s, t, bad := runtimeCrash(out); bad {
				k.Fail(s, "%s", t)
				return "crash"
			}
			tail := out
			if len(tail) > 600 {
				tail = tail[len(tail)-600:]
			}
			e.exits = append(e.exits, fmt.Sprintf("exit=%d signaled=%v %s", code, sig, tail))
			if code == 0 && !sig {
				k.Fail("exit-zero", "the relay ended without an error: %s", tail)
				return "crash"
			}
			if len(e.exits) > maxRestarts {
				return "stopped " + e.exits[len(e.exits)-1]
			}
			time.Sleep(20 * time.Millisecond)
			e.relay.Launch()
			last = time.Now()
		}
		if tick != nil {
			tick()
		}
		if time.Since(last) > 60*time.Second {
			return "stall"
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (e *e2e) finish(k *mon.Case, res string, faultFree bool) {
	if s, t, bad := runtimeCrash(e.relay.Output()); bad && res != "crash" {
		k.Fail(s, "%s", t)
	}
	txs, rej := e.history()
	for _, w := range []*world.World{e.w, e.w2} {
		if w == nil {
			continue
		}
		if sig, d := w.Check(res == "done"); sig != "" {
			k.Fail(sig, "%s; transactions %v", d, txs)
			return
		}
		if bv, ok := w.V.(*sim.BridgeBMV); ok && faultFree && bv.Ignored > 0 {
			k.Fail("resent", "%d events were sent again", bv.Ignored)
		}
	}
	if res != "done" && res != "crash" {
		out := e.relay.Output()
		if len(out) > 1500 {
			out = out[len(out)-1500:]
		}
		k.Fail(strings.SplitN(res, " ", 2)[0], "%s: %d delivered; transactions %v exits %v output %s", res, e.delivered(), txs, e.exits, out)
	}
	if faultFree && rej != "" {
		k.Fail("rejected", "%s; transactions %v", rej, txs)
	}
	for _, p := range e.problems() {
		k.Fail("protocol", "%s", p)
	}
	k.Count("e2e_relay_processes", int64(e.relay.Start))
	k.Count("e2e_messages_delivered", int64(e.delivered()))
	k.Count("e2e_transactions", int64(len(txs)))
	for _, t := range txs {
		if strings.HasPrefix(t, "f") {
			k.Count("e2e_fragments", 1)
		}
	}
	if e.delivered() > 0 {
		k.Seen("%s %v", e.desc, txs)
	}
}

var e2eSizes = []int{16, 40, 100, 400, 3000, 20000}

func e2eProfile(r *rand.Rand, kind string) world.Profile {
	p, _ := profile(r, kind)
	p.Sizes, p.Blocks, p.MaxMsgs = e2eSizes, 8, 8
	p.WS = true
	switch r.Intn(4) {
	case 0:
		p.Sizes, p.Blocks, p.MaxMsgs = []int{16, 1000, 90000, 150000}, 4, 6 // several transactions per block
	case 1:
		p.Sizes, p.Blocks, p.MaxMsgs = []int{16, 1000, 400000, 800000}, 3, 2 // fragments
	}
	return p
}

// e2eClean is one fault free run of the relay process.
func e2eClean(kind string, dsts ...string) func(k *mon.Case) {
	return func(k *mon.Case) {
		dst := dsts[k.I%len(dsts)]
		p := e2eProfile(k.Rand, kind)
		if dst == "eth" {
			p.Sizes, p.MaxMsgs = []int{16, 100, 3000}, 6
		}
		e := newE2E(k, kind, dst, p)
		defer e.close()
		k.Input("%s", e.desc)
		for i := k.Intn(e.w.Left() + 1); i > 0; i-- {
			e.w.Step()
		}
		res := e.supervise(k, 0, e.done, e.tick(k))
		time.Sleep(30 * time.Millisecond)
		e.finish(k, res, true)
	}
}

func (e *e2e) tick(k *mon.Case) func() {
	n := 0
	return func() {
		n++
		switch {
		case e.w.Left() > 0:
			if k.Intn(3) == 0 {
				e.w.Step()
			}
		case e.w.Eth != nil && n%20 == 0:
			e.w.Eth.AddBlock(nil)
		}
		if e.w2 != nil && k.Intn(3) == 0 {
			e.w2.Step()
		}
	}
}
