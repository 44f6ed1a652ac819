package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verifharness/internal/mon"
	"verifharness/internal/sim"
)

func init() {
	props["S03"] = func(c *mon.Ctx) {
		c.CaseLimit = 300 * time.Second
		c.Run("codes", 1, s03codes)
		c.RunP("script", c.N(900, 20000), 64, s03)
	}
	props["M02"] = func(c *mon.Ctx) {
		client.BlockRetryInterval = 60 * time.Millisecond
		c.RunP("blocks", c.N(3000, 20000), 16, m02)
		c.RunP("waits", c.N(48, 800), 16, m02waits)
	}
}

func quietLogger() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	return l
}

type ethEnvT struct {
	env
	en *sim.EthNode
}

func ethEnv(k *mon.Case) *ethEnvT {
	e := &ethEnvT{}
	e.en = sim.NewEthNode("0x38", []int64{1, 56, 97, 1337, 11155111}[k.Intn(5)], k.Rand)
	e.k, e.key, e.note = &sink{}, sim.Key(k.Rand), make(chan struct{}, 1000)
	srcs := []string{"btp://0x2.icon/cx9876543210987654321098765432109876543210", "btp://0x38.bsc/0x034AaDE86BF402F023Aa17E5725fABC4ab9E9798"}
	e.src = types.BtpAddress(srcs[k.Intn(len(srcs))])
	e.en.PrevAddr = e.src.String()
	e.en.Dst = e.k
	e.en.Relays[ethcrypto.PubkeyToAddress(e.key.PublicKey)] = true
	w, err := wallet.NewEvmWalletFromPrivateKey(e.key)
	if err != nil {
		panic(err)
	}
	uri := e.en.HTTP()
	if k.Intn(2) == 0 {
		uri = e.en.WS()
	}
	e.s = ethbr.NewSender(e.src, types.BtpAddress(e.en.Addr), w, uri, nil, quietLogger())
	e.collect()
	return e
}

// s01eth: the contract gets exactly the bytes of the message, once.
func s01eth(k *mon.Case) {
	e := ethEnv(k)
	defer e.en.Close()
	cnt := 1 + k.Intn(3)
	var want [][]byte
	var sizes []int
	for i := 0; i < cnt; i++ {
		z := k.Intn(1 << uint(1+k.Intn(17)))
		switch k.Intn(8) {
		case 0:
			z = k.Intn(3)
		case 1:
			z = []int{31, 32, 33, 63, 64, 65, 200000}[k.Intn(7)]
		}
		b := make([]byte, z)
		k.Read(b)
		sizes, want = append(sizes, z), append(want, b)
	}
	k.Input("messages of %v bytes", sizes)
	k.Seen("%v", sizes)
	for i, b := range want {
		id := k.Intn(1 << 30)
		if got, err := e.s.Relay(&rmsg{id, append([]byte{}, b...)}); err != nil || got != id {
			k.Fail("eth-relay", "message %d of %d bytes: id %d instead of %d, %v", i, len(b), got, id, err)
			return
		}
	}
	if !e.wait(cnt, 20*time.Second) {
		k.Fail("eth-no-status", "%d of %d link statuses", len(e.list()), cnt)
		return
	}
	if p := e.en.ProblemList(); len(p) > 0 {
		k.Fail("eth-protocol", "%v", p)
	}
	got := e.k.Delivered()
	if len(got) != cnt {
		k.Fail("eth-deliveries", "%d deliveries of %d messages", len(got), cnt)
		return
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			k.Fail("eth-content", "message %d of %d bytes arrived as %d bytes", i, len(want[i]), len(got[i]))
		}
	}
	k.Count("eth_transactions", int64(cnt))
}

// --- S03

func s03(k *mon.Case) {
	e := ethEnv(k)
	defer e.en.Close()
	var story []string
	for r := 1 + k.Intn(3); r > 0; r-- {
		s, ok := s03round(k, e)
		story = append(story, s)
		k.Input("%s", strings.Join(story, " / "))
		if !ok {
			return
		}
	}
	k.Seen("%s", strings.Join(story, " / "))
	if p := e.en.ProblemList(); len(p) > 0 {
		k.Fail("protocol", "%v", p)
	}
}

func s03round(k *mon.Case, e *ethEnvT) (string, bool) {
	e.k.set(someStatus(k))
	var story []string
	faults := map[string]sim.Action{}
	relayErr := false
	switch k.Intn(8) {
	case 0:
		faults["eth_sendRawTransaction"] = rpcErr(0, []string{"insufficient funds for gas * price + value", "already known", "replacement transaction underpriced", "txpool is full"}[k.Intn(4)])
		relayErr = true
		story = append(story, "send refused")
	case 1:
		faults["eth_getTransactionCount"] = rpcErr(0, "no nonce")
		relayErr = true
		story = append(story, "no nonce")
	case 2:
		faults["eth_gasPrice"] = sim.Action{Kind: "once", Msg: "no price"}
		story = append(story, "no gas price once")
	}
	pend := 0
	if k.Intn(4) == 0 {
		pend = 1 + k.Intn(2)
		story = append(story, fmt.Sprintf("pending %d", pend))
	}
	fate, code := "", 0
	wantErr, late := false, false
	okCodes := map[int]bool{}
	text := func(c int, why string) string { return fmt.Sprintf("execution reverted: %d: %s", c, why) }
	switch k.Intn(10) {
	case 0, 1, 2, 3:
		fate, code = "fail", []int{25, 26, 27, 28, 10, 11, 99, 1, k.Intn(100) + 1, k.Intn(100) + 1}[k.Intn(10)]
		wantErr = true
		okCodes[code] = true
		f := []string{"execution reverted: %d: %s", "execution reverted: %d:%s", "execution reverted: %d: a:b: %s", "execution reverted:%d: %s", "VM Exception while processing transaction: %d: %s"}[k.Intn(5)]
		text = func(c int, why string) string { return fmt.Sprintf(f, c, why) }
		story = append(story, fmt.Sprintf("revert %q", text(code, "why")))
	case 4:
		fate, code, wantErr = "fail", 26, true
		t := []string{"execution reverted", "execution reverted: Panic", "execution reverted: BMV: NotVerifiable", "", "out of gas: x: y"}[k.Intn(5)]
		text = func(int, string) string { return t }
		okCodes[0], okCodes[25] = true, true
		story = append(story, fmt.Sprintf("revert %q", t))
	case 5:
		fate, wantErr = "lose", true
		okCodes[0] = true
		story = append(story, "lost")
	case 6:
		fate, code, wantErr = "fail", 26, true
		faults["eth_call:handleRelayMessage"] = rpcErr(0, "no state")
		okCodes[0], okCodes[25] = true, true
		story = append(story, "no replay")
	case 7:
		// the transaction failed and nothing but its failure can be read
		fate, code, wantErr = "fail", 26, true
		okCodes[0], okCodes[25] = true, true
		late = true
		faults["eth_getTransactionByHash"] = rpcErr(0, "busy")
		story = append(story, "revert, transaction not readable after its receipt")
	case 8:
		wantErr = true
		okCodes[0] = true
		m := []string{"eth_getTransactionReceipt", "eth_getTransactionByHash"}[k.Intn(2)]
		faults[m] = rpcErr(0, "busy")
		story = append(story, m+" fails")
	}
	badStatus := false
	if k.Intn(4) == 0 {
		badStatus = true
		faults["eth_call:getStatus"] = rpcErr(0, "execution reverted")
		story = append(story, "status fails")
	}
	msg := make([]byte, k.Intn(500))
	k.Read(msg)
	desc := strings.Join(story, ", ")
	fail := func(sig, f string, a ...interface{}) (string, bool) {
		k.Input("%s", desc)
		k.Fail(sig, f, a...)
		return desc, false
	}
	var mu sync.Mutex
	used := map[string]bool{}
	e.en.Set(func() {
		e.en.RevertText = text
		e.en.Pace = func(int) int { return pend }
		e.en.Exec = func(*sim.EthTx) (string, int) { return fate, code }
		e.en.Fault = func(m string, n int) sim.Action {
			mu.Lock()
			defer mu.Unlock()
			used["!"+m] = true
			a, ok := faults[m]
			if late && m == "eth_getTransactionByHash" && !used["!eth_getTransactionReceipt"] {
				return sim.Action{}
			}
			if ok && a.Kind == "once" {
				if used[m] {
					return sim.Action{}
				}
				used[m] = true
				return rpcErr(0, a.Msg)
			}
			return a
		}
	})
	before, txBefore, delivered := len(e.list()), len(e.en.Txs()), len(e.k.Delivered())
	base := e.en.Counts()["eth_call:getStatus"]
	id := k.Intn(1 << 20)
	got, err := e.s.Relay(&rmsg{id, msg})
	k.Count("rounds", 1)
	if relayErr {
		if err == nil {
			return fail("send-error-lost", "the node refused the transaction and Relay returned %d", got)
		}
		time.Sleep(10 * time.Millisecond)
		if len(e.list()) != before || len(e.k.Delivered()) != delivered {
			return fail("report-after-refusal", "%v", e.list()[before:])
		}
		return desc, true
	}
	if err != nil || got != id {
		return fail("send", "Relay returned %d, %v", got, err)
	}
	want := 1
	if wantErr {
		want++
	}
	if badStatus {
		want--
	}
	if want > 0 && !e.wait(before+want, 30*time.Second) {
		return fail("unreported", "%d of %d reports in 30s", len(e.list())-before, want)
	}
	for i := 0; e.en.Counts()["eth_call:getStatus"] == base; i++ {
		if i > 3000 {
			return fail("no-status-query", "the status was not read after the result")
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(10 * time.Millisecond)
	rep := e.list()[before:]
	if len(rep) != want {
		return fail("reports", "%d reports instead of %d: %+v", len(rep), want, rep)
	}
	if wantErr {
		rr, ok := rep[0].(*types.RelayResult)
		if !ok || rr.Id != id || !okCodes[int(rr.Err)] {
			return fail("result", "%T %+v instead of id %d code %v", rep[0], rep[0], id, okCodes)
		}
		rep = rep[1:]
	}
	if !badStatus {
		bs, ok := rep[0].(*types.BMCLinkStatus)
		if !ok || !sameStatus(bs, e.k.Status()) {
			return fail("status", "%+v instead of %+v", rep[0], e.k.Status())
		}
	}
	if fate == "lose" { // its nonce is free again
		e.en.Forget(ethcrypto.PubkeyToAddress(e.key.PublicKey))
	}
	txs := e.en.Txs()[txBefore:]
	if len(txs) != 1 || !bytes.Equal(txs[0].Msg, msg) || txs[0].Prev != e.src.String() {
		return fail("transactions", "%d transactions on chain, wrong content", len(txs))
	}
	return desc, true
}

func s03codes(k *mon.Case) {
	k.Input("every revert code from 1 to 120")
	var wg sync.WaitGroup
	var es []*ethEnvT
	for i := 0; i < 8; i++ {
		es = append(es, ethEnv(k))
	}
	for w := range es {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			v := es[w]
			defer v.en.Close()
			for c := 1 + w; c <= 120; c += 8 {
				c := c
				v.en.Set(func() { v.en.Exec = func(*sim.EthTx) (string, int) { return "fail", c } })
				n := len(v.list())
				if _, err := v.s.Relay(&rmsg{c, []byte{byte(c)}}); err != nil {
					k.Fail("send", "%v", err)
					return
				}
				if !v.wait(n+2, 20*time.Second) {
					k.Fail("unreported", "revert code %d", c)
					return
				}
				rr, ok := v.list()[n].(*types.RelayResult)
				if !ok || rr.Id != c || int(rr.Err) != c {
					k.Fail("result", "revert code %d: %+v", c, v.list()[n])
				}
				k.Seen("code %d", c)
				k.Count("codes", 1)
			}
		}(w)
	}
	wg.Wait()
}

// --- M02

func m02(k *mon.Case) {
	n := sim.NewEthNode("0x38", 56, k.Rand)
	defer n.Close()
	other := common.HexToAddress("0x1111111111111111111111111111111111111111")
	seq := int64(0)
	events := map[int64][]int64{}
	add := func() {
		var txs [][]sim.EthEvent
		var evs []int64
		if k.Intn(3) > 0 {
			for t := k.Intn(4); t > 0; t-- {
				var tx []sim.EthEvent
				for x := k.Intn(4); x > 0; x-- {
					seq++
					ev := sim.EthEvent{Next: "btp://x/y", Seq: seq, Msg: []byte(fmt.Sprint(seq))}
					if k.Intn(4) == 0 {
						ev.Addr = other
					} else {
						evs = append(evs, seq)
					}
					tx = append(tx, ev)
				}
				txs = append(txs, tx)
			}
		}
		h := n.AddBlock(txs)
		events[h] = evs
	}
	pre := k.Intn(25)
	for i := 0; i < pre; i++ {
		add()
	}
	start := int64(0)
	switch k.Intn(4) {
	case 0:
		start = n.Height()
	case 1:
		start = n.Height() + int64(k.Intn(3))
	default:
		start = k.Int63n(n.Height() + 1)
	}
	ws := k.Intn(2) == 0
	uri := n.HTTP()
	if ws {
		uri = n.WS()
	}
	stopAt := -1
	total := k.Intn(30) + 3
	if k.Intn(4) == 0 {
		stopAt = k.Intn(total)
	}
	noFilter := k.Intn(6) == 0
	glitch := ""
	if k.Intn(3) == 0 {
		glitch = []string{"header", "logs", "drop"}[k.Intn(3)]
	}
	k.Input("ws %v, %d blocks before, from %d, %d after, callback fails at %d, glitch %q, filter %v", ws, pre, start, total, stopAt, glitch, !noFilter)
	k.Seen("%v %d %d %d %d %s %v", ws, pre, start, total, stopAt, glitch, noFilter)
	asked, left, glitchAt := int64(-1), 0, int64(-1)
	n.Fault = func(x string, _ int) sim.Action {
		if x == "eth_blockNumber" && asked < 0 {
			asked = n.HeightLocked() + 1
		}
		if left > 0 && x == map[string]string{"header": "eth_getBlockByNumber", "logs": "eth_getLogs"}[glitch] {
			left--
			return rpcErr(0, "busy")
		}
		return sim.Action{}
	}
	c := client.NewClient(uri, quietLogger())
	type seen struct {
		h    int64
		hash common.Hash
		evs  []int64
		bad  string
	}
	var mu sync.Mutex
	var got []seen
	stop := errors.New("enough")
	br := &client.BlockRequest{Height: big.NewInt(start)}
	if !noFilter {
		br.FilterQuery = &ethereum.FilterQuery{Addresses: []common.Address{n.BMC},
			Topics: [][]common.Hash{{ethcrypto.Keccak256Hash([]byte("Message(string,uint256,bytes)"))}}}
	}
	done := make(chan error, 1)
	go func() {
		done <- c.MonitorBlock(br, func(b *client.BlockNotification) error {
			s := seen{h: b.Height.Int64(), hash: b.Hash}
			if b.Header == nil || b.Header.Hash() != b.Hash || b.Header.Number.Cmp(b.Height) != 0 {
				s.bad = "header does not belong to the height and hash"
			}
			for _, l := range b.Logs {
				if l.BlockHash != b.Hash || l.Address != n.BMC {
					s.bad = fmt.Sprintf("log of block %v contract %v", l.BlockHash, l.Address)
				}
				a, err := sim.EthABI.Events["Message"].Inputs.Unpack(l.Data)
				if err != nil {
					s.bad = err.Error()
					continue
				}
				s.evs = append(s.evs, a[1].(*big.Int).Int64())
			}
			mu.Lock()
			defer mu.Unlock()
			got = append(got, s)
			if len(got)-1 == stopAt {
				return stop
			}
			if k.I%3 == 0 {
				mu.Unlock()
				time.Sleep(2 * time.Millisecond)
				mu.Lock()
			}
			return nil
		})
	}()
	if ws { // announced blocks only
		for i := 0; n.Counts()["eth_subscribe"] == 0 || n.Subscribers() == 0; i++ {
			if i > 5000 {
				k.Fail("no-subscription", "the heads are not subscribed")
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(3 * time.Millisecond)
	}
	var ended error
	over := false
	stall, mark := time.Duration(0), time.Now()
	gap := func() {
		if d := time.Since(mark); d > stall {
			stall = d
		}
		mark = time.Now()
	}
	for i := 0; i < total && !over; i++ {
		mu.Lock()
		last := int64(-1)
		if len(got) > 0 {
			last = got[len(got)-1].h
		}
		mu.Unlock()
		if glitch == "header" && i%5 == 4 {
			n.Set(func() {
				// past the blocks that were there when it asked for the head, and
				// past the last glitch
				if asked >= 0 && left == 0 && last > asked && last > glitchAt {
					left, glitchAt = 2, last+1
				}
			})
		} else if glitch != "" && i == total/2 {
			if glitch == "drop" {
				n.DropConns()
			} else if glitch == "logs" {
				n.Set(func() { left = 2 })
			}
		}
		add()
		gap()
		select {
		case ended = <-done:
			over = true
		case <-time.After(time.Duration(k.Intn(4)) * time.Millisecond):
		}
	}
	head := n.Height()
	// wait for the rest
	for i := 0; !over && i < 2000; i++ {
		mu.Lock()
		last := int64(-1)
		if len(got) > 0 {
			last = got[len(got)-1].h
		}
		mu.Unlock()
		if last >= head {
			break
		}
		select {
		case ended = <-done:
			over = true
		case <-time.After(10 * time.Millisecond):
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for i, s := range got {
		k.Count("blocks", 1)
		if s.bad != "" {
			k.Fail("block", "block %d: %s", s.h, s.bad)
			return
		}
		if i == 0 && s.h > start {
			k.Fail("skipped", "the first block is %d instead of %d", s.h, start)
			return
		}
		if i > 0 && s.h != got[i-1].h+1 {
			k.Fail("order", "block %d after block %d", s.h, got[i-1].h)
			return
		}
		if s.hash != n.HashOf(s.h) {
			k.Fail("hash", "block %d has another hash", s.h)
		}
		want := events[s.h]
		if noFilter {
			want = nil
		}
		if fmt.Sprint(s.evs) != fmt.Sprint(want) {
			k.Fail("logs", "block %d: events %v instead of %v", s.h, s.evs, want)
			return
		}
	}
	if stopAt >= 0 && len(got) > stopAt {
		if len(got) != stopAt+1 || !over && !waitErr(done, &ended) || ended != stop {
			k.Fail("callback-error", "the callback failed at %d and %d blocks came, returned %v", stopAt, len(got), ended)
		}
		return
	}
	last := int64(-1)
	if len(got) > 0 {
		last = got[len(got)-1].h
	}
	if last < head && !over {
		k.Fail("silent", "stopped at block %d of %d without an error", last, head)
	}
	if over && ended == nil {
		k.Fail("silent", "ended at block %d of %d without an error", last, head)
	}
	if !over {
		k.Count("followed_to_the_head", 1)
	}
	// a polling client gives up when there is no new block for five intervals
	if over && stopAt < 0 && (glitch == "" || !ws && glitch == "header") && (ws || stall < 50*time.Millisecond) {
		k.Fail("ended", "ended at block %d of %d: %v", last, head, ended)
	}
}

// m02waits: the next block is never there at once, for many blocks.
func m02waits(k *mon.Case) {
	n := sim.NewEthNode("0x38", 56, k.Rand)
	defer n.Close()
	for i := k.Intn(4); i > 0; i-- {
		n.AddBlock(nil)
	}
	var waits []int
	for i := 12 + k.Intn(8); i > 0; i-- {
		waits = append(waits, 1+k.Intn(2))
	}
	k.Input("%v", waits)
	k.Seen("%v", waits)
	c := client.NewClient(n.HTTP(), quietLogger())
	got, done := make(chan int64, 100), make(chan error, 1)
	start, base := n.Height(), 0
	go func() {
		done <- c.MonitorBlock(&client.BlockRequest{Height: big.NewInt(start)}, func(b *client.BlockNotification) error {
			got <- b.Height.Int64()
			return nil
		})
	}()
	for i := 0; i <= len(waits); i++ {
		select {
		case h := <-got:
			if h != start+int64(i) {
				k.Fail("order", "block %d instead of %d", h, start+int64(i))
				return
			}
		case err := <-done:
			if n.Counts()["eth_getBlockByNumber"]-base > 3 { // this machine was too slow to add the block
				k.Count("late", 1)
				return
			}
			k.Fail("ended", "ended waiting for block %d of %d, never asked more than twice in vain: %v", start+int64(i), start+int64(len(waits)), err)
			return
		case <-time.After(20 * time.Second):
			k.Fail("silent", "no block %d in 20s", start+int64(i))
			return
		}
		k.Count("awaited_blocks", 1)
		if i == len(waits) {
			return
		}
		base = n.Counts()["eth_getBlockByNumber"]
		for t := time.Now(); n.Counts()["eth_getBlockByNumber"] < base+waits[i] && time.Since(t) < 20*time.Second; {
			time.Sleep(time.Millisecond)
		}
		n.AddBlock(nil)
	}
}

func waitErr(ch chan error, e *error) bool {
	select {
	case *e = <-ch:
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}
