package main

import (
	"fmt"
	"github.com/icon-project/btp/common/link"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/internal/lnk"
	"verifharness/internal/mon"
	"verifharness/internal/sim"
	"verifharness/internal/world"
)

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

// life is one run of a relay: a link with a fresh receiver and sender.
type life struct {
	run *lnk.Run
	s   *lnk.Sender
}

func begin(w *world.World, limit int, r *rand.Rand, set func(*lnk.Sender)) *life {
	l := lnk.NewLogger()
	s := lnk.NewSender(w.V, limit)
	s.Jitter = lnk.JitterFn(sub(r), time.Duration(r.Intn(4))*time.Millisecond)
	if set != nil {
		set(s)
	}
	return &life{run: lnk.Start(w.SrcAddr, w.DstAddr, l, func() link.Receiver { return w.Receiver(l) }, s), s: s}
}

// until waits for cond, a stop, a crash or a stall of the destination.
func (x *life) until(cond func() bool, limit time.Duration) string {
	for {
		if cond() {
			return "done"
		}
		select {
		case <-x.s.Crash:
			return "crash"
		default:
		}
		if ok, why := x.run.Stopped(); ok {
			if x.run.StoppedNil() {
				return "nil " + why
			}
			return "stopped " + why
		}
		if x.s.Idle() > limit {
			if f := os.Getenv("VERIF_DUMP"); f != "" {
				b := make([]byte, 1<<26)
				os.WriteFile(f, b[:runtime.Stack(b, true)], 0644)
			}
			return "stall"
		}
		time.Sleep(time.Millisecond)
	}
}

func (x *life) end() { x.s.CrashNow(); x.s.Close() }

type trail struct {
	mu sync.Mutex
	b  []string
}

func (t *trail) add(f string, a ...interface{}) {
	t.mu.Lock()
	t.b = append(t.b, fmt.Sprintf(f, a...))
	t.mu.Unlock()
}

func (t *trail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.b
	if len(b) > 40 {
		b = b[len(b)-40:]
	}
	return strings.Join(b, " | ")
}

func (t *trail) life(x *life, res string) {
	var b []string
	for _, q := range x.s.Txs() {
		why := q.Why
		if q.Lost {
			why = "lost"
		}
		b = append(b, fmt.Sprintf("%d/%d/%d%s", q.Size, q.Msgs, q.Code, why))
	}
	if len(b) > 30 {
		b = b[len(b)-30:]
	}
	t.add("[%s] %s", strings.Join(b, " "), res)
}

// judge decides the delivery oracle and records what was observed.
func judge(k *mon.Case, w *world.World, res string, t *trail) {
	if sig, d := w.Check(res == "done"); sig != "" {
		k.Fail(sig, "%s; history %s", d, t)
	} else if res != "done" {
		k.Fail(strings.SplitN(res, " ", 2)[0], "%s: %d of %d messages delivered; history %s", res, len(w.V.Delivered()), len(w.Expected()), t)
	}
	for _, p := range w.Problems() {
		k.Fail("protocol", "%s", p)
	}
	k.Count("messages_delivered", int64(len(w.V.Delivered())))
	k.Count("source_requests", w.Requests())
	if len(w.V.Delivered()) > 0 {
		k.Seen("%s", t.String())
	}
}

func ender(w *world.World) func() bool {
	if w.Eth != nil {
		f := ethNudge(w)
		return func() bool { return w.Left() == 0 && f() }
	}
	return w.Done
}

// crashes restarts the relay at chosen points of its work.
func crashes(kind string, late bool) func(k *mon.Case) {
	return func(k *mon.Case) {
		p, limit := profile(k.Rand, kind)
		w := world.New(kind, k.Rand, p, iconDst)
		defer w.Close()
		for i := k.Intn(w.Left() + 1); i > 0; i-- {
			w.Step()
		}
		k.Input("limit=%d ws=%v late=%v %s", limit, p.WS, late, w.Desc)
		done := produce(sub(k.Rand), w)
		end := ender(w)
		t := &trail{}
		lives := 1 + k.Intn(6)
		var open []*life
		defer func() {
			for _, x := range open {
				x.end()
			}
		}()
		for i := 0; i < lives; i++ {
			mode, n := k.Intn(3), k.Intn(5)
			at := time.Duration(k.Intn(20000)) * time.Microsecond
			x := begin(w, limit, k.Rand, func(s *lnk.Sender) {
				switch mode {
				case 0:
					s.Fate = func(m int) (string, int) {
						if m == n {
							return "crash", 0
						}
						return "", 0
					}
				case 1:
					s.Fate = func(m int) (string, int) {
						if m == n {
							return "crashafter", 0
						}
						return "", 0
					}
				}
			})
			open = append(open, x)
			if mode == 2 {
				time.AfterFunc(at, x.s.CrashNow)
			}
			res := x.until(end, stall)
			if res == "done" {
				t.life(x, "finished before the crash point")
				break
			}
			if res != "crash" && !(late && strings.HasPrefix(res, "stopped")) {
				t.life(x, res)
				judge(k, w, res, t)
				return
			}
			k.Count("crashes", 1)
			if !late {
				x.s.Drain()
				x.s.Close()
			}
			t.life(x, fmt.Sprintf("%s mode=%d n=%d", res, mode, n))
			if w.Eth == nil || p.WS { // pooled HTTP connections are shared with the next life
				w.Drop()
			}
		}
		<-done
		res := ""
		for i := 0; ; i++ {
			x := begin(w, limit, k.Rand, nil)
			open = append(open, x)
			res = x.until(end, stall)
			x.s.Drain()
			t.life(x, res)
			if late && strings.HasPrefix(res, "stopped") && i < 30 {
				k.Count("stops", 1)
				continue
			}
			if !late && res == "done" {
				for _, q := range x.s.Txs() {
					if q.Code != 0 {
						k.Fail("rejected", "after a restart the destination rejected a relay message with %d %s; history %s", q.Code, q.Why, t)
						break
					}
				}
			}
			break
		}
		judge(k, w, res, t)
	}
}

// fault budget: n faults, then none
type budget struct {
	mu   sync.Mutex
	n    int
	r    *rand.Rand
	prob float64
	used map[string]int
}

func (b *budget) take(what string) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.n <= 0 || b.r.Float64() > b.prob {
		return false
	}
	b.n--
	b.used[what]++
	return true
}

func (b *budget) pick(n int) int { b.mu.Lock(); defer b.mu.Unlock(); return b.r.Intn(n) }

func newBudget(r *rand.Rand, n int) *budget {
	return &budget{n: 1 + r.Intn(n), r: sub(r), prob: []float64{0.02, 0.1, 0.3, 1}[r.Intn(4)], used: map[string]int{}}
}

func (b *budget) count(k *mon.Case) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for w, n := range b.used {
		k.Count("fault_"+w, int64(n))
	}
}

func iconFault(b *budget, kind string) sim.Action {
	if !b.take(kind) {
		return sim.Action{}
	}
	switch b.pick(8) {
	case 0:
		return sim.Action{Kind: "rpcerr", Code: -32000, Msg: "Server error"}
	case 1:
		return sim.Action{Kind: "rpcerr", Code: -31007, Msg: "E1007: timeout"}
	case 2:
		return sim.Action{Kind: "http", Code: 503, Body: ""}
	case 3:
		return sim.Action{Kind: "http", Code: 502, Body: "<html>bad gateway</html>"}
	case 4:
		return sim.Action{Kind: "http", Code: 500, Body: `{"jsonrpc":"2.0","id":1}`}
	case 5:
		return sim.Action{Kind: "raw", Body: `{"jsonrpc":"2.0","id":1,"resu`}
	case 6:
		return sim.Action{Kind: "delay", Delay: time.Duration(b.pick(30)) * time.Millisecond}
	}
	return sim.Action{Kind: "drop"}
}

func iconNotify(b *budget) sim.Action {
	if !b.take("notification") {
		return sim.Action{}
	}
	switch b.pick(4) {
	case 0:
		return sim.Action{Kind: "close", Code: 1001, Msg: "going away"}
	case 1:
		return sim.Action{Kind: "close", Code: 1000, Msg: ""}
	case 2:
		return sim.Action{Kind: "delay", Delay: time.Duration(b.pick(30)) * time.Millisecond}
	}
	return sim.Action{Kind: "drop"}
}

func ethFault(b *budget, kind string) sim.Action {
	if !b.take(kind) {
		return sim.Action{}
	}
	switch b.pick(3) {
	case 0:
		return sim.Action{Kind: "rpcerr", Msg: "internal error"}
	case 1:
		return sim.Action{Kind: "rpcerr", Msg: "header not found"}
	}
	return sim.Action{Kind: "drop"}
}

// srcFaults makes the source endpoint fail now and then.
func srcFaults(w *world.World, b *budget) {
	if w.Eth != nil {
		w.Eth.Fault = func(m string, n int) sim.Action { return ethFault(b, m) }
		return
	}
	w.Icon.Fault = func(m string, n int) sim.Action { return iconFault(b, m) }
	w.Icon.Notify = func(c, n int) sim.Action { return iconNotify(b) }
}

// supervised restarts the link whenever it stops, until everything arrived.
func supervised(k *mon.Case, w *world.World, limit, max int, t *trail, set func(life int, s *lnk.Sender)) string {
	end := ender(w)
	for i := 0; ; i++ {
		x := begin(w, limit, k.Rand, func(s *lnk.Sender) {
			if set != nil {
				set(i, s)
			}
		})
		defer x.end()
		res := x.until(end, stall)
		if strings.HasPrefix(res, "stopped") && i < max {
			x.s.Drain()
			x.s.Close()
			t.life(x, res)
			k.Count("stops", 1)
			continue
		}
		t.life(x, res)
		return res
	}
}

// srcFaulty injects failures of the source endpoint.
func srcFaulty(kind string) func(k *mon.Case) {
	return func(k *mon.Case) {
		p, limit := profile(k.Rand, kind)
		w := world.New(kind, k.Rand, p, iconDst)
		defer w.Close()
		b := newBudget(k.Rand, 8)
		srcFaults(w, b)
		for i := k.Intn(w.Left() + 1); i > 0; i-- {
			w.Step()
		}
		k.Input("limit=%d ws=%v faults=%d p=%v %s", limit, p.WS, b.n, b.prob, w.Desc)
		done := produce(sub(k.Rand), w)
		t := &trail{}
		dr := sub(k.Rand)
		if dr.Intn(3) == 0 {
			go func() {
				for i := 0; i < 3; i++ {
					time.Sleep(time.Duration(dr.Intn(10)) * time.Millisecond)
					w.Drop()
				}
			}()
		}
		res := supervised(k, w, limit, 30, t, nil)
		<-done
		b.count(k)
		judge(k, w, res, t)
	}
}

// dstFaulty injects rejections and unreadable states at the destination.
func dstFaulty(kind string) func(k *mon.Case) {
	return func(k *mon.Case) {
		p, limit := profile(k.Rand, kind)
		w := world.New(kind, k.Rand, p, iconDst)
		defer w.Close()
		b := newBudget(k.Rand, 6)
		for i := k.Intn(w.Left() + 1); i > 0; i-- {
			w.Step()
		}
		only := k.Intn(2) == 0 // only rejections the relay answers itself
		k.Input("limit=%d ws=%v faults=%d p=%v notverifiable only=%v %s", limit, p.WS, b.n, b.prob, only, w.Desc)
		done := produce(sub(k.Rand), w)
		t := &trail{}
		res := supervised(k, w, limit, 40, t, func(n int, s *lnk.Sender) {
			s.Fate = func(int) (string, int) {
				if !b.take("rejection") {
					return "", 0
				}
				if only || b.pick(2) == 0 {
					return "fail", sim.BMVNotVerifiable
				}
				return "fail", []int{1, 10, 11, 25, 40, 55, 60, 1000, 2500}[b.pick(9)]
			}
			if !only {
				s.StatusErr = func(int) bool { return b.take("status") }
			}
		})
		<-done
		b.count(k)
		judge(k, w, res, t)
	}
}

// competing runs several relays on the same link.
func competing(kind string) func(k *mon.Case) {
	return func(k *mon.Case) {
		p, limit := profile(k.Rand, kind)
		if p.ProofPad > 200 {
			p.ProofPad = 200 // fits the smallest limit
		}
		short := k.Intn(2) == 0 // the last block decides
		if short {
			p.Blocks, p.MaxMsgs, p.Empty = 2, 12, 0
			limit = []int{2000, 5000, 382692}[k.Intn(3)]
		}
		w := world.New(kind, k.Rand, p, iconDst)
		defer w.Close()
		for i := k.Intn(w.Left() + 1); i > 0; i-- {
			w.Step()
		}
		n := 2 + k.Intn(2)
		dies := k.Intn(2) == 0
		k.Input("relays=%d one dies=%v limit=%d %s", n, dies, limit, w.Desc)
		done := produce(sub(k.Rand), w)
		end := ender(w)
		var emu sync.Mutex
		cond := func() bool { emu.Lock(); defer emu.Unlock(); return end() }
		t := &trail{}
		res := make([]string, n)
		var wg sync.WaitGroup
		for j := 0; j < n; j++ {
			j, r := j, sub(k.Rand)
			lim := limit
			if (short && j > 0) || (!short && r.Intn(2) == 0) {
				lim = []int{600, 900, 3000}[r.Intn(3)]
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					x := begin(w, lim, r, func(s *lnk.Sender) {
						if j > 0 && dies {
							m := r.Intn(4)
							s.Fate = func(n int) (string, int) {
								if n == m {
									return "crashafter", 0
								}
								return "", 0
							}
						}
					})
					defer x.end()
					res[j] = x.until(cond, stall)
					t.life(x, fmt.Sprintf("relay %d %s", j, res[j]))
					if strings.HasPrefix(res[j], "stopped") && i < 200 {
						k.Count("stops", 1)
						continue
					}
					if res[j] == "crash" {
						k.Count("crashes", 1)
						res[j] = "done"
					}
					return
				}
			}()
		}
		wg.Wait()
		<-done
		final := "done"
		for j, r := range res {
			if r != "done" {
				final = r
				t.add("relay %d: %s", j, r)
			}
		}
		k.Count("competing_relays", int64(n))
		judge(k, w, final, t)
	}
}

// --- the relay process

// e2eKill kills the relay process at random moments.
func e2eKill(kind string, dsts ...string) func(k *mon.Case) {
	return func(k *mon.Case) {
		dst := dsts[k.I%len(dsts)]
		p := e2eProfile(k.Rand, kind)
		p.Blocks = 16
		if dst == "eth" {
			p.Sizes, p.MaxMsgs = []int{16, 100, 3000}, 6
		}
		e := newE2E(k, kind, dst, p)
		defer e.close()
		k.Input("%s", e.desc)
		kills := 1 + k.Intn(4)
		next := time.Now().Add(time.Duration(60+k.Intn(250)) * time.Millisecond)
		tk := e.tick(k)
		res := e.supervise(k, 60, e.done, func() {
			tk()
			if kills > 0 && time.Now().After(next) {
				kills--
				k.Count("kills", 1)
				if k.Intn(4) == 0 {
					e.relay.Signal(syscall.SIGTERM)
				} else {
					e.relay.Signal(syscall.SIGKILL)
				}
				next = time.Now().Add(time.Duration(60+k.Intn(250)) * time.Millisecond)
			}
		})
		e.finish(k, res, false)
	}
}

// e2eFault lets the endpoints of a relay process fail.
func e2eFault(kind, side string, dsts ...string) func(k *mon.Case) {
	return func(k *mon.Case) {
		dst := dsts[k.I%len(dsts)]
		p := e2eProfile(k.Rand, kind)
		if dst == "eth" {
			p.Sizes, p.MaxMsgs = []int{16, 100, 3000}, 6
		}
		e := newE2E(k, kind, dst, p)
		defer e.close()
		b := newBudget(k.Rand, 5)
		k.Input("%s faults at the %s=%d p=%v", e.desc, side, b.n, b.prob)
		if side == "src" {
			srcFaults(e.w, b)
		} else {
			if e.dstIcon != nil {
				e.dstIcon.Fault = func(m string, n int) sim.Action {
					a := iconFault(b, m)
					if m == "icx_sendTransaction" && a.Kind != "" && b.pick(3) == 0 {
						a = sim.Action{Kind: "droppost"}
					}
					return a
				}
				e.dstIcon.Exec = func(t *sim.Tx) (string, int) {
					if b.take("rejection") {
						// also failures that carry no code of a contract
						return "fail", 32 + []int{11, 25, 26, 26, 26, 40, -22, -1}[b.pick(8)]
					}
					return "", 0
				}
			}
			if e.dstEth != nil {
				e.dstEth.Fault = func(m string, n int) sim.Action { return ethFault(b, m) }
				e.dstEth.Exec = func(t *sim.EthTx) (string, int) {
					if b.take("rejection") {
						return "fail", []int{11, 25, 26, 26, 26, 40}[b.pick(6)]
					}
					return "", 0
				}
			}
		}
		res := e.supervise(k, 60, e.done, e.tick(k))
		b.count(k)
		e.finish(k, res, false)
	}
}
