package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/icon"
	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verifharness/internal/mon"
	"verifharness/internal/sim"
)

func init() {
	props["S01"] = func(c *mon.Ctx) {
		c.RunP("sizes", c.N(len(s01Sizes()), len(s01Sizes())), 8, s01(true))
		c.RunP("random", c.N(150, 3000), 8, s01(false))
		c.RunP("eth", c.N(150, 3000), 8, s01eth)
	}
	props["S02"] = func(c *mon.Ctx) {
		c.CaseLimit = 300 * time.Second
		c.Run("codes", 1, s02codes)
		c.RunP("script", c.N(900, 20000), 96, s02)
		c.RunP("parallel", c.N(150, 4000), 32, s02parallel)
	}
}

// rmsg is a relay message.
type rmsg struct {
	id int
	b  []byte
}

func (r *rmsg) Id() int       { return r.id }
func (r *rmsg) Bytes() []byte { return r.b }
func (r *rmsg) Size() int64   { return int64(len(r.b)) }

// sink records the messages that reach the contract.
type sink struct {
	mu  sync.Mutex
	got [][]byte
	st  sim.Status
}

func (s *sink) Status() sim.Status { s.mu.Lock(); defer s.mu.Unlock(); return s.st }
func (s *sink) Handle(m []byte) (int, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, append([]byte{}, m...))
	s.st.RxSeq++
	return 0, ""
}
func (s *sink) Delivered() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([][]byte{}, s.got...)
}
func (s *sink) set(st sim.Status) { s.mu.Lock(); s.st = st; s.mu.Unlock() }

func someStatus(k *mon.Case) sim.Status {
	v := func() int64 {
		switch k.Intn(5) {
		case 0:
			return int64(k.Intn(3))
		case 1:
			return math.MaxInt64 - int64(k.Intn(3))
		case 2:
			return 1 << uint(k.Intn(62))
		}
		return k.Int63n(1 << uint(1+k.Intn(62)))
	}
	st := sim.Status{TxSeq: v(), RxSeq: v(), Height: v()}
	if st.RxSeq > math.MaxInt64-100 {
		st.RxSeq -= 100 // incremented by deliveries
	}
	st.Extra = make([]byte, k.Intn(60))
	k.Read(st.Extra)
	return st
}

const iconBMC = "cx0123456789012345678901234567890123456789"

// env is one sender and the node it talks to.
type env struct {
	n   *sim.IconNode
	k   *sink
	s   types.Sender
	ch  <-chan types.SenderMessage
	src types.BtpAddress
	key *ecdsa.PrivateKey

	mu   sync.Mutex
	got  []types.SenderMessage
	note chan struct{}
}

func iconEnv(k *mon.Case, opt map[string]interface{}) *env {
	nids := []string{"0x1", "0x7", "0xa1b2c3", "0x53"}
	e := &env{n: sim.NewIconNode(nids[k.Intn(len(nids))], iconBMC), k: &sink{}, key: sim.Key(k.Rand), note: make(chan struct{}, 1000)}
	srcs := []string{"btp://0x2.icon/cx9876543210987654321098765432109876543210", "btp://0x38.bsc/0x034AaDE86BF402F023Aa17E5725fABC4ab9E9798", "btp://0x1.hmny/cx1"}
	e.src = types.BtpAddress(srcs[k.Intn(len(srcs))])
	e.n.PrevAddr = e.src.String()
	e.n.Dst = e.k
	e.n.Relays[sim.IconAddr(e.key)] = true
	sk, err := crypto.ParsePrivateKey(ethcrypto.FromECDSA(e.key))
	if err != nil {
		panic(err)
	}
	w, err := wallet.NewIcxWalletFromPrivateKey(sk)
	if err != nil {
		panic(err)
	}
	l := log.New()
	l.SetLevel(log.PanicLevel)
	e.s = icon.NewSender(e.src, types.BtpAddress(e.n.Addr), w, e.n.Endpoint(), opt, l)
	e.collect()
	return e
}

func (e *env) collect() {
	ch, err := e.s.Start()
	if err != nil {
		panic(err)
	}
	e.ch = ch
	go func() {
		for m := range ch {
			e.mu.Lock()
			e.got = append(e.got, m)
			e.mu.Unlock()
			e.note <- struct{}{}
		}
	}()
}

func (e *env) list() []types.SenderMessage {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]types.SenderMessage{}, e.got...)
}

// wait until n sender messages came, or the time is over.
func (e *env) wait(n int, d time.Duration) bool {
	to := time.After(d)
	for len(e.list()) < n {
		select {
		case <-e.note:
		case <-to:
			return len(e.list()) >= n
		}
	}
	return true
}

func (e *env) results() (rs []*types.RelayResult, ss []*types.BMCLinkStatus, other []types.SenderMessage) {
	for _, m := range e.list() {
		switch t := m.(type) {
		case *types.RelayResult:
			rs = append(rs, t)
		case *types.BMCLinkStatus:
			ss = append(ss, t)
		default:
			other = append(other, t)
		}
	}
	return
}

func sameStatus(a *types.BMCLinkStatus, st sim.Status) bool {
	return a != nil && a.TxSeq == st.TxSeq && a.RxSeq == st.RxSeq && a.Verifier.Height == st.Height && bytes.Equal(a.Verifier.Extra, st.Extra)
}

// --- S01

const iconLimit = 382692 // ceil(512 KiB / 1.37)

func s01Sizes() []int {
	r := []int{0, 1, 2, 3, 100, 65536}
	for m := 1; m <= 4; m++ {
		for d := -3; d <= 3; d++ {
			r = append(r, m*iconLimit+d)
		}
	}
	return append(r, 2*iconLimit+iconLimit/2, 6*iconLimit+1, 11*iconLimit, 17*iconLimit+5)
}

// s01: whatever the size, the contract gets exactly the bytes of the message,
// once, in transactions the node accepts.
func s01(fixed bool) func(*mon.Case) {
	return func(k *mon.Case) {
		var opt map[string]interface{}
		step := int64(0x9502f900)
		if k.Intn(2) == 0 {
			step = 1 + k.Int63n(1<<uint(1+k.Intn(44)))
			opt = map[string]interface{}{"StepLimit": step}
		}
		e := iconEnv(k, opt)
		defer e.n.Close()
		e.n.Pace = func(int) (int, int) { return 0, 0 }
		if lim := e.s.TxSizeLimit(); lim <= 0 || lim > 393216 {
			k.Fail("limit", "a message of the advertised limit %d does not fit a transaction", lim)
		}
		cnt := 1 + k.Intn(3)
		var want [][]byte
		var sizes []int
		for i := 0; i < cnt; i++ {
			var z int
			if fixed {
				z = s01Sizes()[k.I]
				if i > 0 {
					z = k.Intn(1000)
				}
			} else {
				z = k.Intn(1 << uint(1+k.Intn(20)))
			}
			b := make([]byte, z)
			k.Read(b)
			if k.Intn(3) == 0 { // bytes whose base64 differs between alphabets
				for j := range b {
					b[j] |= 0xfb
				}
			}
			sizes = append(sizes, z)
			want = append(want, b)
		}
		k.Input("messages of %v bytes, step limit %d", sizes, step)
		k.Seen("%v", sizes)
		for i, b := range want {
			id := k.Intn(1 << 30)
			in := append([]byte{}, b...)
			got, err := e.s.Relay(&rmsg{id, in})
			if err != nil || got != id {
				k.Fail("relay", "message %d of %d bytes: id %d instead of %d, %v", i, len(b), got, id, err)
				return
			}
			if !bytes.Equal(in, b) {
				k.Fail("changed", "message %d was modified by sending it", i)
			}
			if k.Intn(2) == 0 && !e.wait(i+1, 20*time.Second) {
				k.Fail("no-status", "no link status after message %d", i)
				return
			}
		}
		if !e.wait(cnt, 20*time.Second) {
			k.Fail("no-status", "%d of %d link statuses", len(e.list()), cnt)
			return
		}
		e.n.Flush()
		time.Sleep(5 * time.Millisecond)
		if p := e.n.ProblemList(); len(p) > 0 {
			k.Fail("protocol", "%v", p)
		}
		got := e.k.Delivered()
		if len(got) != cnt {
			k.Fail("deliveries", "%d deliveries of %d messages (sizes %v)", len(got), cnt, sizes)
			return
		}
		for i := range want {
			if !bytes.Equal(got[i], want[i]) {
				k.Fail("content", "message %d of %d bytes arrived as %d bytes", i, len(want[i]), len(got[i]))
			}
		}
		txs := e.n.Txs()
		k.Count("transactions", int64(len(txs)))
		for _, t := range txs {
			if t.Code != 0 {
				k.Fail("rejected", "transaction %s index %d: %d %s", t.Method, t.Index, t.Code, t.Why)
			}
			if t.Method == "handleFragment" {
				k.Count("fragments", 1)
			}
			if s, _ := t.Raw["stepLimit"].(string); s != fmt.Sprintf("0x%x", step) {
				k.Fail("step-limit", "%s instead of 0x%x", s, step)
			}
		}
		rs, ss, other := e.results()
		if len(rs) != 0 || len(ss) != cnt || len(other) != 0 {
			k.Fail("reports", "%d results, %d statuses, %d others for %d delivered messages", len(rs), len(ss), len(other), cnt)
		}
		if len(ss) > 0 && !sameStatus(ss[len(ss)-1], e.k.Status()) && cnt == 1 {
			k.Fail("status", "%+v instead of %+v", ss[len(ss)-1], e.k.Status())
		}
	}
}

// --- S02

type sendStep struct {
	act sim.Action
	why string
}

// s02 walks one sender through scripted answers of the node.
func s02(k *mon.Case) {
	e := iconEnv(k, nil)
	defer e.n.Close()
	rounds := 1 + k.Intn(3)
	var story []string
	for r := 0; r < rounds; r++ {
		s, ok := s02round(k, e, r)
		story = append(story, s)
		k.Input("%s", strings.Join(story, " / "))
		if !ok {
			return
		}
	}
	k.Seen("%s", strings.Join(story, " / "))
	if p := e.n.ProblemList(); len(p) > 0 {
		k.Fail("protocol", "%v", p)
	}
}

func rpcErr(code int, msg string) sim.Action { return sim.Action{Kind: "rpcerr", Code: code, Msg: msg} }

func s02round(k *mon.Case, e *env, round int) (string, bool) {
	st := someStatus(k)
	e.k.set(st)
	// answers to the transaction
	var sends []sim.Action
	var story []string
	waits := 0
	expired := 0
	for i := k.Intn(4); i > 0 && waits < 2; i-- {
		if k.Intn(3) == 0 {
			sends = append(sends, rpcErr(-31001, "E2001:Transaction pool overflow"))
			story = append(story, "overflow")
			waits++
		} else {
			sends = append(sends, rpcErr(-31000, []string{"E2002:ExpiredTransaction", "E2002", "E2002: Expired(diff=10)"}[k.Intn(3)]))
			story = append(story, "expired")
			expired++
		}
	}
	final := k.Intn(12)
	relayErr, big := false, false
	dup := false
	switch final {
	case 0:
		a := [...]sim.Action{rpcErr(-31000, "E2003:FutureTransaction"), rpcErr(-31000, "E2005:InvalidTransaction"), rpcErr(-31000, ""),
			rpcErr(-31000, "E2"), rpcErr(-31000, "Exxxx:what"), rpcErr(-31004, "E1004:NotFound"), rpcErr(-32602, "E2002:not a system error"),
			rpcErr(-30000, "E2000:not a system error"), rpcErr(-31000, "E2011:CommittedTransaction")}[k.Intn(9)]
		sends = append(sends, a)
		story = append(story, fmt.Sprintf("send error %d %q", a.Code, a.Msg))
		relayErr = true
	case 1:
		a := [...]sim.Action{{Kind: "http", Code: 500, Body: "oops"}, {Kind: "http", Code: 502, Body: ""}, {Kind: "http", Code: 404, Body: "{}"},
			{Kind: "drop"}, {Kind: "raw", Body: ""}, {Kind: "raw", Body: "null"}, {Kind: "raw", Body: "{"}, {Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"a":1},"id":1}`}}[k.Intn(8)]
		sends = append(sends, a)
		story = append(story, fmt.Sprintf("send %s %d %q", a.Kind, a.Code, a.Body))
		relayErr = true
	case 2, 3: // the node has it, but says so on a second attempt only
		sends = append(sends, sim.Action{Kind: "keep-then-dup", Msg: []string{"E2000:DuplicateTransaction", "E2000"}[k.Intn(2)]})
		story = append(story, "duplicate")
		dup = true
	case 4:
		big = true
		story = append(story, "fragments")
	}
	// answers to the result polls
	fate, code := "", 0
	pend, exe := 0, 0
	if waits == 0 && k.Intn(3) == 0 {
		pend, exe = k.Intn(2), k.Intn(2)
	}
	wantErr, wantCode := false, 0
	var poll sim.Action
	switch k.Intn(8) {
	case 0, 1, 2:
		fate = "fail"
		code = []int{32, 33, 57, 58, 59, 99, 98, 43, 32 + k.Intn(68), 32 + k.Intn(68)}[k.Intn(10)]
		wantErr, wantCode = true, code-32
		story = append(story, fmt.Sprintf("failure %d", code))
	case 3:
		fate = "fail"
		code = []int{1, 2, 31, 100, 101, 1000, 30, 10, 0x7fffffff}[k.Intn(9)]
		wantErr, wantCode = true, 0
		story = append(story, fmt.Sprintf("failure %d", code))
	case 4:
		fate = "lose"
		wantErr = true
		story = append(story, "lost")
	case 5:
		poll = [...]sim.Action{{Kind: "http", Code: 500, Body: "oops"}, {Kind: "drop"}, {Kind: "raw", Body: "null"}, {Kind: "raw", Body: "{"}, rpcErr(-31004, "E1004:NotFound"),
			rpcErr(-31006, "E1006"), rpcErr(-32602, "x"), {Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"status":"0x0","failure":null},"id":1}`},
			{Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"status":"0x0"},"id":1}`}}[k.Intn(9)]
		wantErr = true
		story = append(story, fmt.Sprintf("poll %s %d %s", poll.Kind, poll.Code, poll.Body))
	}
	// answers to the status query
	var stat sim.Action
	badStatus := false
	if k.Intn(4) == 0 {
		stat = [...]sim.Action{{Kind: "http", Code: 500, Body: "oops"}, {Kind: "drop"}, {Kind: "raw", Body: "{"}, rpcErr(-30032, "Reverted(0)"),
			{Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"tx_seq":"0x1","rx_seq":"0xzz","verifier":{"height":"0x1","extra":"0x00"}},"id":1}`},
			{Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"tx_seq":"0x1","rx_seq":"0x1","verifier":{"height":"12q","extra":"0x00"}},"id":1}`},
			{Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"tx_seq":"0x1","rx_seq":"0x1","verifier":{"height":"0x1","extra":"0x0g"}},"id":1}`},
			{Kind: "raw", Body: `{"jsonrpc":"2.0","result":{"tx_seq":"?","rx_seq":"0x1","verifier":{"height":"0x1","extra":"0x00"}},"id":1}`}}[k.Intn(8)]
		badStatus = true
		story = append(story, fmt.Sprintf("status %s %d %s", stat.Kind, stat.Code, stat.Body))
	}

	size := k.Intn(2000)
	if big {
		size = iconLimit + k.Intn(1000)
	}
	msg := make([]byte, size)
	k.Read(msg)
	base := e.n.Counts()
	before := len(e.list())
	txBefore := len(e.n.Txs())
	delivered := len(e.k.Delivered())

	var mu sync.Mutex
	type attempt struct {
		sig string
		ts  int64
	}
	var seen []attempt // in order
	e.n.Set(func() {
		e.n.Pace = func(int) (int, int) { return pend, exe }
		e.n.Exec = func(t *sim.Tx) (string, int) {
			if big && t.Method == "handleFragment" && t.Index != 0 {
				return "", 0
			}
			return fate, code
		}
		e.n.Sniff = func(sig string, ts int64) { mu.Lock(); seen = append(seen, attempt{sig, ts}); mu.Unlock() }
		e.n.Fault = func(kind string, n int) sim.Action {
			switch kind {
			case "icx_sendTransaction":
				i := n - base[kind] - 1
				if i < len(sends) {
					return sends[i]
				}
			case "icx_getTransactionResult":
				if poll.Kind != "" && n-base[kind] == 1+pend+exe {
					return poll
				}
			case "call:getStatus":
				return stat
			}
			return sim.Action{}
		}
	})
	id := k.Intn(1 << 20)
	got, err := e.s.Relay(&rmsg{id, msg})
	desc := strings.Join(story, ", ")
	k.Count("rounds", 1)
	fail := func(sig, f string, a ...interface{}) (string, bool) {
		k.Input("round %d: %s", round, desc)
		k.Fail(sig, f, a...)
		return desc, false
	}
	if relayErr {
		if err == nil {
			return fail("send-error-lost", "the node refused the transaction and Relay returned %d", got)
		}
		time.Sleep(30 * time.Millisecond)
		if len(e.list()) != before {
			return fail("report-after-refusal", "%v", e.list()[before:])
		}
		if len(e.k.Delivered()) != delivered {
			return fail("delivered-after-refusal", "the message of a failed Relay was delivered")
		}
		return desc, true
	}
	if err != nil || got != id {
		return fail("send", "Relay returned %d, %v", got, err)
	}
	want := 1
	if wantErr {
		want++
	}
	if badStatus {
		want--
	}
	if want > 0 && !e.wait(before+want, 30*time.Second) {
		return fail("unreported", "%d of %d reports in 30s", len(e.list())-before, want)
	}
	for i := 0; e.n.Counts()["call:getStatus"] == base["call:getStatus"]; i++ {
		if i > 3000 {
			return fail("no-status-query", "the status was not read after the result")
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	rep := e.list()[before:]
	if len(rep) != want {
		return fail("reports", "%d reports instead of %d: %+v", len(rep), want, rep)
	}
	if wantErr {
		rr, ok := rep[0].(*types.RelayResult)
		if !ok || rr.Id != id || int(rr.Err) != wantCode {
			return fail("result", "%T %+v instead of id %d code %d", rep[0], rep[0], id, wantCode)
		}
		rep = rep[1:]
	}
	if !badStatus {
		bs, ok := rep[0].(*types.BMCLinkStatus)
		if !ok || !sameStatus(bs, e.k.Status()) {
			return fail("status", "%+v instead of %+v", rep[0], e.k.Status())
		}
	}
	txs := e.n.Txs()[txBefore:]
	n := 1
	if big {
		n = 2
	}
	if len(txs) != n {
		return fail("transactions", "%d transactions on chain instead of %d", len(txs), n)
	}
	all := []byte{}
	for _, t := range txs {
		all = append(all, t.Msg...)
	}
	if !bytes.Equal(all, msg) {
		return fail("content", "%d bytes on chain instead of %d", len(all), len(msg))
	}
	mu.Lock()
	defer mu.Unlock()
	for i := 1; i < len(seen) && i <= len(sends); i++ {
		if sends[i-1].Code == -31000 && (seen[i].ts <= seen[i-1].ts || seen[i].sig == seen[i-1].sig) {
			return fail("expired-resent", "the transaction with timestamp %d expired and was sent again with %d", seen[i-1].ts, seen[i].ts)
		}
	}
	if dup {
		k.Count("duplicates", 1)
	}
	k.Count("expired", int64(expired))
	k.Count("attempts", int64(len(seen)))
	return desc, true
}

// s02codes walks through every failure code.
func s02codes(k *mon.Case) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	e := make([]*env, 0)
	for i := 0; i < 8; i++ {
		e = append(e, iconEnv(k, nil))
	}
	// what the answers of the node mean
	je := func(c int, m string) error { return &jsonrpc.Error{Code: jsonrpc.ErrorCode(c), Message: m} }
	known := map[int]error{2001: client.ErrSendFailByOverflow, 2002: client.ErrSendFailByExpired, 2003: client.ErrSendFailByFuture}
	for c := 1000; c < 3000; c++ {
		err := je(-31000, fmt.Sprintf("E%04d:text", c))
		want := err
		if x := known[c]; x != nil {
			want = x
		}
		if got := client.MapError(err); got != want {
			k.Fail("meaning", "system error %d means %v instead of %v", c, got, want)
		}
	}
	top := map[int]error{-31001: client.ErrSendFailByOverflow, -31002: client.ErrGetResultFailByPending, -31003: client.ErrGetResultFailByPending}
	for c := -33000; c < 200; c++ {
		err := je(c, []string{"", "E200", "E2002", "text", "E2002:x"}[(c+33000)%5])
		want := err
		if x := top[c]; x != nil {
			want = x
		} else if c == -31000 {
			continue
		}
		if got := client.MapError(err); got != want {
			k.Fail("meaning", "error %d means %v instead of %v", c, got, want)
		}
	}
	if client.MapError(nil) != nil {
		k.Fail("meaning", "no error means %v", client.MapError(nil))
	}
	k.Input("every failure code from 1 to 200")
	for w := range e {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			v := e[w]
			defer v.n.Close()
			for c := 1 + w; c <= 200; c += 8 {
				c := c
				v.n.Set(func() { v.n.Exec = func(*sim.Tx) (string, int) { return "fail", c } })
				n := len(v.list())
				if _, err := v.s.Relay(&rmsg{c, []byte{byte(c)}}); err != nil {
					k.Fail("send", "%v", err)
					return
				}
				if !v.wait(n+2, 20*time.Second) {
					k.Fail("unreported", "failure code %d", c)
					return
				}
				want := 0
				if c >= 32 && c <= 99 {
					want = c - 32
				}
				rr, ok := v.list()[n].(*types.RelayResult)
				if !ok || rr.Id != c || int(rr.Err) != want {
					k.Fail("result", "failure code %d: %+v instead of code %d", c, v.list()[n], want)
				}
				mu.Lock()
				k.Seen("code %d", c)
				k.Count("codes", 1)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
}

// s02parallel sends several messages without waiting for their results.
func s02parallel(k *mon.Case) {
	e := iconEnv(k, nil)
	defer e.n.Close()
	n := 2 + k.Intn(8)
	fates := make([]int, n)
	for i := range fates {
		if k.Intn(2) == 0 {
			fates[i] = 32 + k.Intn(68)
		}
	}
	k.Input("fates %v", fates)
	k.Seen("%v", fates)
	pace := make([][2]int, n)
	for i := range pace {
		pace[i] = [2]int{k.Intn(2), k.Intn(2)}
	}
	e.n.Pace = func(s int) (int, int) { return pace[s%n][0], pace[s%n][1] }
	e.n.Exec = func(t *sim.Tx) (string, int) {
		if c := fates[int(t.Msg[0])]; c != 0 {
			return "fail", c
		}
		return "", 0
	}
	for i := 0; i < n; i++ {
		if got, err := e.s.Relay(&rmsg{1000 + i, []byte{byte(i), 1, 2}}); err != nil || got != 1000+i {
			k.Fail("send", "%d %v", got, err)
			return
		}
	}
	bad := 0
	for _, f := range fates {
		if f != 0 {
			bad++
		}
	}
	if !e.wait(n+bad, 30*time.Second) {
		k.Fail("unreported", "%d of %d reports", len(e.list()), n+bad)
		return
	}
	time.Sleep(10 * time.Millisecond)
	rs, ss, other := e.results()
	if len(rs) != bad || len(ss) != n || len(other) != 0 {
		k.Fail("reports", "%d results, %d statuses for %d failures of %d", len(rs), len(ss), bad, n)
		return
	}
	seen := map[int]bool{}
	for _, r := range rs {
		i := r.Id - 1000
		if i < 0 || i >= n || seen[i] || fates[i] == 0 || int(r.Err) != fates[i]-32 {
			k.Fail("result", "%+v with fates %v", r, fates)
			return
		}
		seen[i] = true
	}
	k.Count("parallel_messages", int64(n))
	if p := e.n.ProblemList(); len(p) > 0 {
		k.Fail("protocol", "%v", p)
	}
}

var _ = json.Marshal
