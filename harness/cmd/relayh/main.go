// relayh observes relays: the link engine with the real receivers in process
// against simulated chains, and the real relay process end to end.
package main

import (
	"fmt"
	"github.com/icon-project/btp/common/link"
	"math/rand"
	"strings"
	"time"

	"github.com/icon-project/btp/chain/ethbr/client"

	"verifharness/internal/lnk"
	"verifharness/internal/mon"
	"verifharness/internal/sim"
	"verifharness/internal/world"
)

const (
	iconDst = "btp://0x2.icon/cx2222222222222222222222222222222222222222"
	stall   = 30 * time.Second
)

var smallSizes = []int{16, 17, 33, 64, 100, 200, 300, 600, 1500}

func init() {
	client.BlockRetryInterval = 15 * time.Millisecond
	client.BlockRetryLimit = 1 << 30
}

func profile(r *rand.Rand, k string) (world.Profile, int) {
	limits := []int{600, 800, 1200, 2000, 5000, 382692}
	limit := limits[r.Intn(len(limits))]
	p := world.Profile{Blocks: 10, MaxMsgs: 12, Sizes: smallSizes, Empty: 0.12, WS: r.Intn(3) > 0}
	switch r.Intn(8) {
	case 0:
		p.Blocks, p.MaxMsgs = 3, 70
	case 1:
		p.Blocks, p.MaxMsgs = 40, 3
	}
	starts := []int64{0, 0, 1, 60, 120, 125, 126, 127, 250, 254, 255, 32760, 65530, 1 << 31, 1<<40 - 3}
	p.SeqStart = starts[r.Intn(len(starts))]
	if r.Intn(2) == 0 {
		p.ProofPad = limit / 3
		if limit > 100000 {
			p.ProofPad = 5000
		}
	}
	return p, limit
}

// wait polls until cond, a stop of the link, or a stall.
func wait(run *lnk.Run, s *lnk.Sender, cond func() bool) string {
	for {
		if cond() {
			return "done"
		}
		if ok, why := run.Stopped(); ok {
			return "stopped " + why
		}
		if s.Idle() > stall {
			return "stall"
		}
		time.Sleep(time.Millisecond)
	}
}

// produce steps the world at random moments until the plan is exhausted.
func produce(r *rand.Rand, w *world.World) chan struct{} {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		for {
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			}
			if !w.Step() {
				return
			}
		}
	}()
	return ch
}

func oversize(k *mon.Case, kind string, limit int, txs []lnk.Tx) {
	for _, t := range txs {
		k.C.Max("largest_relay_message", int64(t.Size))
		// a single message may exceed the limit, several never do (the envelope
		// of the message is not accounted for)
		if t.Msgs > 1 {
			k.C.Max("largest_excess", int64(t.Size-limit))
		}
		slack := 80
		if kind == "eth" { // per receipt
			slack = limit/10 + 256
		}
		if t.Msgs > 1 && t.Size > limit+slack {
			k.Fail("oversize", "relay message of %d bytes with %d messages, limit %d", t.Size, t.Msgs, limit)
		}
	}
}

// clean runs one fault free link and decides in order, exactly once delivery.
func clean(kind string) func(k *mon.Case) {
	return func(k *mon.Case) {
		p, limit := profile(k.Rand, kind)
		w := world.New(kind, k.Rand, p, iconDst)
		defer w.Close()
		pre := k.Intn(w.Left() + 1)
		for i := 0; i < pre; i++ {
			w.Step()
		}
		k.Input("limit=%d ws=%v produced before start=%d %s", limit, p.WS, pre, w.Desc)
		l := lnk.NewLogger()
		s := lnk.NewSender(w.V, limit)
		defer s.Close()
		s.Jitter = lnk.JitterFn(rand.New(rand.NewSource(k.Int63())), time.Duration(k.Intn(4))*time.Millisecond)
		run := lnk.Start(w.SrcAddr, w.DstAddr, l, func() link.Receiver { return w.Receiver(l) }, s)
		r := rand.New(rand.NewSource(k.Int63()))
		if kind == "eth" && p.WS {
			// heads are only announced while the chain grows
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
		}
		done := produce(r, w)
		<-done
		end := func() bool { return w.Done() }
		if kind == "eth" && p.WS {
			end = ethNudge(w)
		}
		res := wait(run, s, end)
		time.Sleep(5 * time.Millisecond)
		finish(k, w, s, limit, res, true)
	}
}

// ethNudge mines empty blocks until everything arrived, so that a subscription
// made after the last planned block sees a head.
func ethNudge(w *world.World) func() bool {
	last := time.Now()
	return func() bool {
		if w.Done() {
			return true
		}
		if time.Since(last) > 40*time.Millisecond {
			last = time.Now()
			w.Eth.AddBlock(nil)
		}
		return false
	}
}

func finish(k *mon.Case, w *world.World, s *lnk.Sender, limit int, res string, faultFree bool) {
	txs := s.Txs()
	hist := func() string {
		var b []string
		for _, t := range txs {
			b = append(b, fmt.Sprintf("%d/%d/%d%s", t.Size, t.Msgs, t.Code, t.Why))
		}
		if len(b) > 60 {
			b = b[len(b)-60:]
		}
		return strings.Join(b, " ")
	}
	if sig, d := w.Check(res == "done"); sig != "" {
		k.Fail(sig, "%s; transactions size/messages/code: %s", d, hist())
	} else if res != "done" {
		kind := strings.SplitN(res, " ", 2)[0]
		got, want := len(w.V.Delivered()), len(w.Expected())
		k.Fail(kind, "%s: %d of %d messages delivered; transactions size/messages/code: %s", res, got, want, hist())
	}
	oversize(k, w.Kind, limit, txs)
	if faultFree {
		for _, t := range txs {
			if t.Code != 0 && res == "done" {
				k.Fail("rejected", "the destination rejected a relay message with %d %s; %s", t.Code, t.Why, hist())
				break
			}
		}
		if bv, ok := w.V.(*sim.BridgeBMV); ok && bv.Ignored > 0 {
			k.Fail("resent", "%d events were sent again", bv.Ignored)
		}
	}
	for _, p := range w.Problems() {
		k.Fail("protocol", "%s", p)
	}
	k.Count("messages_delivered", int64(len(w.V.Delivered())))
	k.Count("relay_messages", int64(len(txs)))
	k.Count("source_requests", w.Requests())
	multi, part := 0, 0
	for _, t := range txs {
		if t.Msgs > 1 {
			multi++
		}
	}
	if bv, ok := w.V.(*sim.BTPBlockBMV); ok {
		part = bv.Partial
		k.Count("block_updates", int64(bv.BUs))
		k.Count("message_proofs", int64(bv.MPs))
	}
	k.Count("partial_blocks", int64(part))
	k.Count("multi_message_txs", int64(multi))
	if len(txs) > 0 && len(w.V.Delivered()) > 0 {
		k.Seen("%s", hist())
	}
}

func main() {
	mon.Main(map[string]func(*mon.Ctx){
		"B01": func(c *mon.Ctx) {
			c.RunP("link-btp2", c.N(4000, 60000), 16, clean("btp2"))
			c.RunP("e2e-btp2", c.N(60, 600), 8, e2eClean("btp2", "icon", "eth", "icon", "both"))
		},
		"B02": func(c *mon.Ctx) {
			c.RunP("link-bridge", c.N(4000, 60000), 16, clean("bridge"))
			c.RunP("e2e-bridge", c.N(60, 600), 8, e2eClean("bridge", "icon", "eth", "icon", "both"))
		},
		"B03": func(c *mon.Ctx) {
			c.RunP("link-eth", c.N(3000, 40000), 16, clean("eth"))
			c.RunP("e2e-eth", c.N(60, 600), 8, e2eClean("eth", "icon"))
		},
		"B04": func(c *mon.Ctx) {
			for _, kind := range []string{"btp2", "bridge", "eth"} {
				c.RunP("crash-"+kind, c.N(1200, 20000), 16, crashes(kind, false))
				c.RunP("late-"+kind, c.N(400, 8000), 16, crashes(kind, true))
				c.RunP("e2e-kill-"+kind, c.N(24, 240), 8, e2eKill(kind, "icon", "eth", "icon"))
			}
		},
		"B05": func(c *mon.Ctx) {
			for _, kind := range []string{"btp2", "bridge", "eth"} {
				c.RunP("source-"+kind, c.N(600, 12000), 16, srcFaulty(kind))
				c.RunP("e2e-source-"+kind, c.N(12, 120), 8, e2eFault(kind, "src", "icon"))
			}
		},
		"B06": func(c *mon.Ctx) {
			for _, kind := range []string{"btp2", "bridge", "eth"} {
				c.RunP("destination-"+kind, c.N(1500, 20000), 16, dstFaulty(kind))
				c.RunP("e2e-destination-"+kind, c.N(24, 240), 8, e2eFault(kind, "dst", "icon", "eth"))
			}
		},
		"B07": func(c *mon.Ctx) {
			c.Relevant = func(sig string) bool {
				for _, p := range []string{"relay-crash", "stall", "hang", "panic", "nil"} {
					if strings.HasPrefix(sig, p) {
						return true
					}
				}
				return false
			}
			for _, kind := range []string{"btp2", "bridge", "eth"} {
				c.RunP("race-clean-"+kind, c.N(60, 800), 16, clean(kind))
				c.RunP("race-crash-"+kind, c.N(30, 400), 16, crashes(kind, true))
				c.RunP("race-source-"+kind, c.N(30, 400), 16, srcFaulty(kind))
				c.RunP("race-destination-"+kind, c.N(40, 600), 16, dstFaulty(kind))
				c.RunP("race-competing-"+kind, c.N(20, 300), 8, competing(kind))
				c.RunP("race-e2e-"+kind, c.N(4, 40), 6, e2eClean(kind, "icon", "eth"))
				c.RunP("race-e2e-destination-"+kind, c.N(4, 40), 6, e2eFault(kind, "dst", "icon", "eth"))
				c.RunP("race-e2e-source-"+kind, c.N(2, 20), 6, e2eFault(kind, "src", "icon", "eth"))
			}
		},
		"B08": func(c *mon.Ctx) {
			for _, kind := range []string{"btp2", "bridge", "eth"} {
				c.RunP("competing-"+kind, c.N(1000, 16000), 12, competing(kind))
			}
		},
	})
}
