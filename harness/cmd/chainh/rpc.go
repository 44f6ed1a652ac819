package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verifharness/internal/mbtx"
	"verifharness/internal/mon"
	"verifharness/internal/sim"
)

func init() {
	props["J01"] = func(c *mon.Ctx) {
		c.RunP("calls", c.N(6000, 300000), 8, j01)
		c.RunP("concurrent", c.N(80, 3000), 8, j01concurrent)
		c.RunP("typed", c.N(3000, 150000), 8, j01typed)
		c.RunP("status", c.N(1500, 60000), 8, j01status)
		c.RunP("connections", c.N(24, 400), 8, j01conns)
		c.RunP("result", c.N(120, 3000), 24, j01result)
		c.RunP("values", c.N(4000, 200000), 8, j01values)
	}
	props["S04"] = func(c *mon.Ctx) {
		c.RunP("serialize", c.N(30000, 1000000), 8, s04serialize)
		c.RunP("sign", c.N(1500, 60000), 8, s04sign)
	}
}

// web answers requests with f and records nothing itself.
type web struct {
	ln   net.Listener
	srv  *http.Server
	mu   sync.Mutex
	all  int // connections ever opened
	open int
}

func newWeb(f http.HandlerFunc) *web {
	ln, err := sim.Listen()
	if err != nil {
		panic(err)
	}
	w := &web{ln: ln, srv: &http.Server{Handler: f}}
	w.srv.ConnState = func(_ net.Conn, st http.ConnState) {
		w.mu.Lock()
		defer w.mu.Unlock()
		switch st {
		case http.StateNew:
			w.all++
			w.open++
		case http.StateClosed, http.StateHijacked:
			w.open--
		}
	}
	go w.srv.Serve(ln)
	return w
}
func (w *web) url() string { return "http://" + w.ln.Addr().String() + "/api/v3" }
func (w *web) close()      { w.srv.Close() }

// --- random JSON

var strs = []string{"", "a", "b.c", "{}", "[x]", "back\\slash", "quote\"", "<tag>&amp;", "한글", "\u2028", "new\nline", "0x1", "nul\x00", "emoji 🚀", "..", "\\0", "\\.", "a,b", "signature", "k=v; x:y", "txHash", "(1+2)*3", "tab\tx", "%d", "|", "'"}

func jstr(k *mon.Case) string {
	if k.Intn(2) == 0 {
		return strs[k.Intn(len(strs))]
	}
	b := make([]byte, k.Intn(12))
	for i := range b {
		if b[i] = "abcdefghijklmnop.{}[]\\\"<&0123456789"[k.Intn(35)]; k.Intn(4) == 0 {
			b[i] = byte(32 + k.Intn(95))
		}
	}
	return string(b)
}

// jval makes a JSON value; num allows numbers and booleans.
func jval(k *mon.Case, depth int, num bool) interface{} {
	n := k.Intn(10)
	if depth <= 0 && n > 4 {
		n = k.Intn(5)
	}
	switch n {
	case 0:
		return nil
	case 1:
		if num {
			return float64(k.Int63n(1<<53)) * float64(1-2*k.Intn(2))
		}
		return jstr(k)
	case 2:
		if num {
			return k.Intn(2) == 0
		}
		return jstr(k)
	case 3, 4:
		return jstr(k)
	case 5, 6:
		l := make([]interface{}, k.Intn(5))
		for i := range l {
			l[i] = jval(k, depth-1, num)
		}
		if !num && len(l) > 0 && l[0] == "" {
			l[0] = "x" // an empty first item has no agreed serialization
		}
		return l
	default:
		return jmap(k, depth, num)
	}
}

func jmap(k *mon.Case, depth int, num bool) map[string]interface{} {
	m := map[string]interface{}{}
	for i := k.Intn(6); i > 0; i-- {
		m[jstr(k)] = jval(k, depth-1, num)
	}
	return m
}

// --- J01

func j01(k *mon.Case) {
	method := []string{"icx_call", "btp_getHeader", "x", "icx_sendTransaction"}[k.Intn(4)]
	params := jval(k, 3, true)
	result := jval(k, 3, true)
	// answer
	kind := k.Intn(14)
	code := []int{-31000, -31001, -32700, -30032, 0, 1, 2147483647}[k.Intn(7)]
	emsg := jstr(k)
	edata := jval(k, 1, true)
	status := []int{400, 401, 403, 404, 429, 500, 502, 503, 302 + 2, 201, 204}[k.Intn(11)]
	k.Input("answer %d, code %d, status %d, method %s, params %v, result %v", kind, code, status, method, params, result)
	pj, _ := json.Marshal(params)
	rj, _ := json.Marshal(result)
	k.Seen("%d %d %d %s", kind, code, status, pj)
	var problem string
	hits := 0
	var mu sync.Mutex
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		defer mu.Unlock()
		hits++
		var q map[string]json.RawMessage
		if err := json.Unmarshal(b, &q); err != nil || r.Method != "POST" || r.URL.Path != "/api/v3" {
			problem = fmt.Sprintf("%s %s %s", r.Method, r.URL.Path, b)
		}
		var m, v string
		json.Unmarshal(q["method"], &m)
		json.Unmarshal(q["jsonrpc"], &v)
		var p interface{}
		json.Unmarshal(q["params"], &p)
		if m != method || v != "2.0" || len(q["id"]) == 0 || string(q["id"]) == "null" || !reflect.DeepEqual(p, params) {
			problem = fmt.Sprintf("request %s for %s %s", b, method, pj)
		}
		if r.Header.Get("Content-Type") != "application/json" || r.Header.Get("X-Test") != "yes" {
			problem = fmt.Sprintf("headers %v", r.Header)
		}
		id := string(q["id"])
		if id == "" {
			id = "1"
		}
		js := func(st int, body string) {
			w.Header().Set("Content-Type", []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}[k.I%3])
			w.WriteHeader(st)
			io.WriteString(w, body)
		}
		e, _ := json.Marshal(map[string]interface{}{"code": code, "message": emsg, "data": edata})
		if edata == nil {
			e, _ = json.Marshal(map[string]interface{}{"code": code, "message": emsg})
		}
		switch kind {
		case 0, 1, 2, 3:
			js(200, fmt.Sprintf(`{"jsonrpc":"2.0","result":%s,"id":%s}`, rj, id))
		case 4:
			js(200, fmt.Sprintf(`{"jsonrpc":"2.0","error":%s,"id":%s}`, e, id))
		case 5:
			js(status, fmt.Sprintf(`{"jsonrpc":"2.0","error":%s,"id":%s}`, e, id))
		case 6:
			w.Header().Set("Content-Type", "text/plain")
			w.WriteHeader(status)
			if status != 204 {
				io.WriteString(w, "plain text")
			}
		case 7:
			js(200, []string{"", "null", "{", "[]", "\"x\"", "12", `{"jsonrpc":"2.0","result":`, "<html>"}[k.I%8])
		case 8:
			js(status, []string{"", "null", "{", "[]", "{}", `{"result":1}`}[k.I%6])
		case 9:
			if hj, ok := w.(http.Hijacker); ok {
				c, _, _ := hj.Hijack()
				c.Close()
			}
		case 10:
			w.Header().Set("Content-Length", "1000")
			io.WriteString(w, `{"jsonrpc":"2.0","result":`)
		case 12: // an error wins over a result
			js(200, fmt.Sprintf(`{"jsonrpc":"2.0","result":%s,"error":%s,"id":%s}`, rj, e, id))
		case 11: // result that does not fit the receiver
			js(200, fmt.Sprintf(`{"jsonrpc":"2.0","result":{"a":[1,{"b":"%s"}]},"id":%s}`, "x", id))
		}
	})
	defer srv.close()
	hc := &http.Client{Transport: &http.Transport{}}
	defer hc.CloseIdleConnections()
	c := jsonrpc.NewJsonRpcClient(hc, srv.url())
	c.CustomHeader["X-Test"] = "yes"
	var got interface{} = "untouched"
	var dst interface{} = &got
	var s string
	if kind == 11 {
		dst = &s
	}
	var ps interface{} = params
	if kind == 13 { // parameters that cannot be sent
		ps = []interface{}{make(chan int), math.NaN(), map[string]interface{}{"a": math.Inf(1)}, struct{ F func() }{}, badJSON{}}[k.Intn(5)]
	}
	_, err := c.Do(method, ps, dst)
	mu.Lock()
	defer mu.Unlock()
	if problem != "" {
		k.Fail("request", "%s", problem)
		return
	}
	if kind == 13 && hits != 0 {
		k.Fail("request", "parameters %T cannot be sent and a request was made without them", ps)
	}
	if hits != 1 && kind != 9 && kind != 13 {
		k.Fail("request", "%d requests for one call", hits)
	}
	switch {
	case kind < 4:
		if err != nil || !reflect.DeepEqual(got, result) {
			k.Fail("result", "%v %v instead of %s", got, err, rj)
		}
	case kind == 4 || kind == 12 || kind == 5 && status != 204 && status != 304:
		je, ok := err.(*jsonrpc.Error)
		if !ok || int(je.Code) != code || je.Message != emsg || !reflect.DeepEqual(je.Data, edata) {
			k.Fail("error", "%T %v instead of %d %q %v (status %d)", err, err, code, emsg, edata, status)
		}
	case kind == 6:
		he, ok := err.(*common.HttpError)
		if !ok || he.StatusCode() != status || status != 204 && status != 304 && string(he.Response()) != "plain text" {
			k.Fail("http-error", "%T %v for status %d", err, err, status)
		}
	default:
		if err == nil {
			k.Fail("no-error", "no error and result %v (answer %d)", got, kind)
		}
	}
	if err != nil && !reflect.DeepEqual(got, "untouched") {
		k.Fail("result-with-error", "%v came with the error %v", got, err)
	}
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("not now") }

// j01status: a status that cannot be read is an error, never a status with
// some fields missing.
func j01status(k *mon.Case) {
	st := someStatus(k)
	f := []string{fmt.Sprintf("0x%x", st.TxSeq), fmt.Sprintf("0x%x", st.RxSeq), fmt.Sprintf("0x%x", st.Height), "0x" + hex.EncodeToString(st.Extra)}
	bad := -1
	if k.Intn(4) > 0 {
		bad = k.Intn(4)
		nums := []string{"?", "0xzz", "12q", "0x", "0x8000000000000000", "0x1ffffffffffffffff", "x", "--1", "0x1 ", " 1", "0x1.0", "NaN"}
		bts := []string{"0x0g", "0", "x", "0xabc", "0xzz", "0x 0", "0x00 ", "0x00,"}
		if f[bad] = nums[k.Intn(len(nums))]; bad == 3 {
			f[bad] = bts[k.Intn(len(bts))]
		}
	}
	k.Input("tx_seq %q rx_seq %q height %q extra %q", f[0], f[1], f[2], f[3])
	k.Seen("%q", f)
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		a, _ := json.Marshal(map[string]interface{}{"tx_seq": f[0], "rx_seq": f[1], "verifier": map[string]interface{}{"height": f[2], "extra": f[3]}})
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":1}`, a)
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	g, err := c.GetStatus("hx01", "btp://0x38.bsc/0x034AaDE86BF402F023Aa17E5725fABC4ab9E9798", "btp://0x1.icon/cx0123456789012345678901234567890123456789")
	if bad < 0 {
		if err != nil || !sameStatus(g, st) {
			k.Fail("status", "%+v %v instead of %+v", g, err, st)
		}
		return
	}
	k.Count("unreadable_statuses", 1)
	if err == nil {
		k.Fail("status-unreadable", "%+v for field %d = %q", g, bad, f[bad])
	}
}

// j01conns: calls one after the other do not pile up connections.
func j01conns(k *mon.Case) {
	n := 150 + k.Intn(150)
	bodies := k.Intn(4)
	k.Input("%d calls one after the other, answers %d", n, bodies)
	k.Seen("%d %d", n, bodies)
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		io.Copy(io.Discard, r.Body)
		switch bodies {
		case 1:
			w.Header().Set("Content-Type", "text/plain")
			w.WriteHeader(503)
			io.WriteString(w, "busy")
		case 2:
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(500)
			io.WriteString(w, `{"jsonrpc":"2.0","error":{"code":-31000,"message":"x"},"id":1}`)
		case 3:
			w.Header().Set("Content-Type", "application/json")
			io.WriteString(w, `{"jsonrpc":"2.0","result":"`+strings.Repeat("x", 100000)+`","id":1}`+strings.Repeat(" ", 100))
		default:
			w.Header().Set("Content-Type", "application/json")
			io.WriteString(w, `{"jsonrpc":"2.0","result":"ok","id":1}`)
			w.(http.Flusher).Flush()
			time.Sleep(time.Millisecond)
			io.WriteString(w, "\n")
		}
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	for i := 0; i < n; i++ {
		var s string
		c.Do("m", map[string]int{"n": i}, &s)
	}
	k.Count("sequential_calls", int64(n))
	// an answered call leaves at most an idle connection behind
	last := 0
	for i := 0; i < 100; i++ {
		srv.mu.Lock()
		last = srv.open
		srv.mu.Unlock()
		if last <= n/3 {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	k.Fail("connections", "%d connections are open after %d finished calls", last, n)
}

// j01result: sending a transaction and waiting for its result.
func j01result(k *mon.Case) {
	type step struct {
		code int
		msg  string
	}
	var script []step // answers to the result query before the result
	for i := k.Intn(3); i > 0; i-- {
		script = append(script, []step{{-31002, "Pending"}, {-31003, "Executing"}}[k.Intn(2)])
	}
	sendKind := k.Intn(6)
	sends := []step{{0, ""}, {0, ""}, {-31000, "E2000:DuplicateTransactionError"}, {-31000, "E2002:Expired"}, {-31000, "E2005:Invalid"}, {-32600, "E2000:x"}}
	final := []step{{0, ""}, {0, ""}, {-31004, "NotFound"}, {-31000, "E1000:x"}}[k.Intn(4)]
	k.Input("send %+v, result %+v then %+v", sends[sendKind], script, final)
	k.Seen("%d %v %v", sendKind, script, final)
	var mu sync.Mutex
	asked, sent := 0, 0
	var hashes []string
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var q struct {
			Method string
			Params map[string]interface{}
		}
		json.Unmarshal(b, &q)
		mu.Lock()
		defer mu.Unlock()
		w.Header().Set("Content-Type", "application/json")
		a := step{}
		res := `"0xaa"`
		switch q.Method {
		case "icx_sendTransaction":
			sent++
			a = sends[sendKind]
		case "icx_getTransactionResult":
			h, _ := q.Params["txHash"].(string)
			hashes = append(hashes, h)
			if asked < len(script) {
				a = script[asked]
			} else {
				a = final
			}
			asked++
			res = `{"status":"0x1","txHash":"0xaa"}`
		}
		if a.code != 0 {
			w.WriteHeader(400)
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":%d,"message":%q},"id":1}`, a.code, a.msg)
			return
		}
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":1}`, res)
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	_, tr, err := c.SendTransactionAndGetResult(&client.TransactionParam{TxHash: "0xdd", Version: "0x3"})
	mu.Lock()
	defer mu.Unlock()
	if sent != 1 {
		k.Fail("result-send", "sent %d times", sent)
	}
	if sendKind >= 3 {
		if err == nil || asked != 0 {
			k.Fail("result-refused", "the node refused the transaction: %v, %d questions for the result", err, asked)
		}
		return
	}
	want := "0xaa"
	if sendKind == 2 { // known to the node already
		want = "0xdd"
	}
	for _, h := range hashes {
		if h != want {
			k.Fail("result-hash", "the result of %s was asked for instead of %s", h, want)
		}
	}
	if asked != len(script)+1 {
		k.Fail("result-polls", "%d questions instead of %d", asked, len(script)+1)
		return
	}
	if final.code != 0 {
		if je, ok := err.(*jsonrpc.Error); !ok || int(je.Code) != final.code {
			k.Fail("result-error", "%v instead of %+v", err, final)
		}
	} else if err != nil || tr == nil || tr.Status != "0x1" {
		k.Fail("result", "%+v %v", tr, err)
	}
}

// j01values: the texts of the node interface.
func j01values(k *mon.Case) {
	switch k.Intn(3) {
	case 0: // option header
		o := client.IconOptions{}
		want := map[string]string{}
		for i := 1 + k.Intn(4); i > 0; i-- {
			key := fmt.Sprintf("k%d", k.Intn(100))
			v := []string{"", "1", "true", "a=b", "=", "x==y=", "-3", "a b"}[k.Intn(8)]
			o.Set(key, v)
			want[key] = v
		}
		k.Input("options %v", want)
		k.Seen("options %v", want)
		h := http.Header{}
		h.Set(client.HeaderKeyIconOptions, o.ToHeaderValue())
		g := client.NewIconOptionsByHeader(h)
		if !reflect.DeepEqual(map[string]string(g), want) {
			k.Fail("options", "%v instead of %v", g, want)
		}
		n := k.Int63() - k.Int63()
		g.SetInt("n", n)
		g.SetBool("b", n > 0)
		if v, err := g.GetInt("n"); err != nil || v != n {
			k.Fail("options", "%d %v instead of %d", v, err, n)
		}
		if v, err := g.GetBool("b"); err != nil || v != (n > 0) {
			k.Fail("options", "%v %v", v, err)
		}
	case 1: // byte strings
		b := make([]byte, k.Intn(40))
		k.Read(b)
		h := client.NewHexBytes(b)
		k.Seen("bytes %x", b)
		if v, err := h.Value(); err != nil || !bytes.Equal(v, b) {
			k.Input("bytes %x", b)
			k.Fail("hexbytes", "%q: %x %v", h, v, err)
		}
		for _, x := range []string{"", "0", "x", "0xa", "0xg0", "0x" + string(h[2:]) + "1", "0x" + string(h[2:]) + "zz"} {
			if len(x) == 0 {
				continue // an absent field
			}
			if v, err := client.HexBytes(x).Value(); err == nil {
				k.Input("bytes %q", x)
				k.Fail("hexbytes-bad", "%q is read as %x", x, v)
			}
		}
	case 2: // addresses
		b := make([]byte, 21)
		k.Read(b)
		b[0] = []byte{0, 1, 2, 3, 0x80, 0xff, byte(k.Intn(256))}[k.Intn(7)]
		a := client.NewAddress(b)
		k.Input("address %x", b)
		k.Seen("address %x", b)
		want := ""
		switch b[0] {
		case 0:
			want = "hx" + hex.EncodeToString(b[1:])
		case 1:
			want = "cx" + hex.EncodeToString(b[1:])
		}
		if string(a) != want {
			k.Fail("address", "%q instead of %q", a, want)
		}
		if want != "" {
			if v, err := a.Value(); err != nil || !bytes.Equal(v, b) {
				k.Fail("address", "%x %v", v, err)
			}
		}
		for _, x := range []string{"", "h", "hx", "cx0", "ax" + hex.EncodeToString(b[1:]), "0x" + hex.EncodeToString(b[1:]), "hx" + hex.EncodeToString(b[2:]), "cx" + hex.EncodeToString(b), "hx" + hex.EncodeToString(b[2:]) + "zz"} {
			if v, err := client.Address(x).Value(); err == nil {
				k.Fail("address-bad", "%q is read as %x", x, v)
			}
		}
	}
}

// j01concurrent: calls in parallel over one client get their own answers.
func j01concurrent(k *mon.Case) {
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			Params struct{ N, D, E int }
			ID     json.RawMessage
		}
		b, _ := io.ReadAll(r.Body)
		json.Unmarshal(b, &q)
		time.Sleep(time.Duration(q.Params.D) * 100 * time.Microsecond)
		w.Header().Set("Content-Type", "application/json")
		if q.Params.E == 1 {
			w.WriteHeader(400)
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":%d,"message":"m%d"},"id":%s}`, q.Params.N, q.Params.N, q.ID)
			return
		}
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":{"n":%d,"s":"%d"},"id":%s}`, q.Params.N, q.Params.N, q.ID)
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	n := 4 + k.Intn(40)
	k.Input("%d calls in parallel", n)
	k.Seen("%d %d", n, k.I)
	ds, es := k.Perm(n), make([]int, n)
	for i := range es {
		es[i] = k.Intn(3) / 2
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var res struct {
				N int
				S string
			}
			_, err := c.Do("m", map[string]int{"N": 1000 + i, "D": ds[i], "E": es[i]}, &res)
			if es[i] == 1 {
				je, ok := err.(*jsonrpc.Error)
				if !ok || int(je.Code) != 1000+i || je.Message != fmt.Sprintf("m%d", 1000+i) {
					k.Fail("mixed", "call %d got error %v", i, err)
				}
			} else if err != nil || res.N != 1000+i || res.S != fmt.Sprint(1000+i) {
				k.Fail("mixed", "call %d got %+v %v", i, res, err)
			}
			k.Count("parallel_calls", 1)
		}(i)
	}
	wg.Wait()
}

// j01typed: every typed call asks for the right thing and returns the answer.
func j01typed(k *mon.Case) {
	var method string
	var params map[string]interface{}
	var answer interface{}
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var q struct {
			Method string
			Params map[string]interface{}
			ID     json.RawMessage
		}
		json.Unmarshal(b, &q)
		method, params = q.Method, q.Params
		a, _ := json.Marshal(answer)
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":%s}`, a, q.ID)
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	rb := func() []byte { b := make([]byte, k.Intn(60)); k.Read(b); return b }
	h := client.NewHexInt(k.Int63n(1 << uint(1+k.Intn(62))))
	nid := client.NewHexInt(int64(k.Intn(300)))
	src := types.BtpAddress("btp://0x1.icon/cx0123456789012345678901234567890123456789")
	dst := types.BtpAddress("btp://0x38.bsc/0x034AaDE86BF402F023Aa17E5725fABC4ab9E9798")
	check := func(wm string, wp map[string]interface{}, ok bool, err error, got interface{}) {
		k.Input("%s %v", wm, wp)
		k.Seen("%s %v %v", wm, wp, answer)
		k.Count(wm, 1)
		if err != nil || !ok {
			k.Fail("typed-result", "%s: %v %v instead of %v", wm, got, err, answer)
		}
		x, _ := json.Marshal(wp)
		y, _ := json.Marshal(params)
		if method != wm || !bytes.Equal(x, y) {
			k.Fail("typed-request", "%s %s instead of %s %s", method, y, wm, x)
		}
	}
	blk := &client.BTPBlockParam{Height: h, NetworkId: nid}
	bp := map[string]interface{}{"height": string(h), "networkID": string(nid)}
	call := func(to types.BtpAddress, from, m, link string) map[string]interface{} {
		return map[string]interface{}{"from": from, "to": to.Account(), "dataType": "call", "data": map[string]interface{}{"method": m, "params": map[string]interface{}{"_link": link}}}
	}
	switch k.Intn(14) {
	case 0:
		s := base64.StdEncoding.EncodeToString(rb())
		answer = s
		g, err := c.GetBTPHeader(blk)
		check("btp_getHeader", bp, g == s, err, g)
	case 1:
		s := base64.StdEncoding.EncodeToString(rb())
		answer = s
		g, err := c.GetBTPProof(blk)
		check("btp_getProof", bp, g == s, err, g)
	case 2:
		var s []string
		for i := k.Intn(5); i >= 0; i-- {
			s = append(s, base64.StdEncoding.EncodeToString(rb()))
		}
		answer = s
		g, err := c.GetBTPMessage(blk)
		check("btp_getMessages", bp, reflect.DeepEqual(g, s), err, g)
	case 3:
		info := map[string]interface{}{"startHeight": string(h), "networkTypeID": "0x1", "networkName": jstr(k), "open": "0x1", "owner": "cx01", "nextMessageSN": string(nid), "networkID": "0x7", "prevNSHash": "0x00", "lastNSHash": "0x01", "networkTypeName": "eth"}
		answer = info
		g, err := c.GetBTPNetworkInfo(&client.BTPNetworkInfoParam{Id: nid})
		ok := g != nil && g.StartHeight == h && g.NetworkName == info["networkName"] && g.NextMessageSN == nid && g.NetworkID == "0x7" && g.Owner == "cx01" && g.NetworkTypeID == "0x1" && g.NetworkTypeName == "eth" && g.PrevNSHash == "0x00" && g.LastNSHash == "0x01" && g.Open == "0x1"
		check("btp_getNetworkInfo", map[string]interface{}{"height": "", "id": string(nid)}, ok, err, g)
	case 4:
		v := k.Int63n(1 << uint(1+k.Intn(62)))
		answer = fmt.Sprintf("0x%x", v)
		g, err := c.GetBTPLinkNetworkId(src, dst)
		check("icx_call", call(src, "", "getBTPLinkNetworkId", dst.String()), g == v, err, g)
	case 5:
		v := k.Int63n(1 << uint(1+k.Intn(62)))
		answer = fmt.Sprintf("0x%x", v)
		g, err := c.GetBTPLinkOffset(src, dst)
		check("icx_call", call(src, "", "getBTPLinkOffset", dst.String()), g == v, err, g)
	case 6:
		st := someStatus(k)
		answer = map[string]interface{}{"tx_seq": fmt.Sprintf("0x%x", st.TxSeq), "rx_seq": fmt.Sprintf("0x%x", st.RxSeq), "verifier": map[string]interface{}{"height": fmt.Sprintf("0x%x", st.Height), "extra": "0x" + hex.EncodeToString(st.Extra)}}
		g, err := c.GetStatus("hx01", dst, src)
		check("icx_call", call(src, "hx01", "getStatus", dst.String()), sameStatus(g, st), err, g)
	case 7:
		b := rb()
		answer = b
		g, err := c.GetBlockHeaderByHeight(&client.BlockHeightParam{Height: h})
		check("icx_getBlockHeaderByHeight", map[string]interface{}{"height": string(h)}, bytes.Equal(g, b), err, g)
	case 8:
		b := rb()
		answer = b
		g, err := c.GetVotesByHeight(&client.BlockHeightParam{Height: h})
		check("icx_getVotesByHeight", map[string]interface{}{"height": string(h)}, bytes.Equal(g, b), err, g)
	case 9:
		b := rb()
		answer = b
		hs := client.NewHexBytes(rb())
		g, err := c.GetDataByHash(&client.DataHashParam{Hash: hs})
		check("icx_getDataByHash", map[string]interface{}{"hash": string(hs)}, bytes.Equal(g, b), err, g)
	case 10:
		b := [][]byte{append(rb(), 1), append(rb(), 2)}
		answer = b
		hs := client.NewHexBytes(rb())
		g, err := c.GetProofForResult(&client.ProofResultParam{BlockHash: hs, Index: nid})
		check("icx_getProofForResult", map[string]interface{}{"hash": string(hs), "index": string(nid)}, reflect.DeepEqual(g, b), err, g)
	case 11:
		b := [][][]byte{{append(rb(), 1), append(rb(), 2)}, {append(rb(), 3)}}
		answer = b
		hs := client.NewHexBytes(rb())
		g, err := c.GetProofForEvents(&client.ProofEventsParam{BlockHash: hs, Index: nid, Events: []client.HexInt{"0x0", "0x3"}})
		check("icx_getProofForEvents", map[string]interface{}{"hash": string(hs), "index": string(nid), "events": []interface{}{"0x0", "0x3"}}, reflect.DeepEqual(g, b), err, g)
	case 12:
		code := client.NewHexInt(int64(k.Intn(200)))
		answer = map[string]interface{}{"status": "0x0", "failure": map[string]interface{}{"code": string(code), "message": "why"}, "blockHeight": string(h), "txHash": "0xaa", "to": "cx02",
			"eventLogs": []interface{}{map[string]interface{}{"scoreAddress": "cx03", "indexed": []string{"Message(str,int,bytes)", "a"}, "data": []string{"0x01"}}}}
		g, err := c.GetTransactionResult(&client.TransactionHashParam{Hash: "0xbb"})
		ok := g != nil && g.Status == "0x0" && g.Failure != nil && g.Failure.CodeValue == code && g.Failure.MessageValue == "why" && g.BlockHeight == h && g.TxHash == "0xaa" && g.To == "cx02" &&
			len(g.EventLogs) == 1 && g.EventLogs[0].Addr == "cx03" && len(g.EventLogs[0].Indexed) == 2 && len(g.EventLogs[0].Data) == 1
		check("icx_getTransactionResult", map[string]interface{}{"txHash": "0xbb"}, ok, err, g)
	case 13:
		v := k.Int63n(1 << 40)
		answer = map[string]interface{}{"height": v, "confirmed_transaction_list": []interface{}{map[string]interface{}{"txHash": "0x11", "from": "hx01", "to": "cx02", "dataType": "call", "data": map[string]interface{}{"method": "m"}}}}
		g, err := c.GetBlockByHeight(&client.BlockHeightParam{Height: h})
		ok := g != nil && g.Height == v && len(g.NormalTransactions) == 1 && g.NormalTransactions[0].TxHash == "0x11" && g.NormalTransactions[0].To == "cx02" && string(g.NormalTransactions[0].Data) == `{"method":"m"}`
		check("icx_getBlockByHeight", map[string]interface{}{"height": string(h)}, ok, err, g)
	}
}

// --- S04

func s04serialize(k *mon.Case) {
	m := jmap(k, 4, false)
	k.Input("%#v", m)
	want := sim.SerializeICONMap(m)
	k.Seen("%s", want)
	got, err := client.SerializeMap(m, nil, nil)
	if err != nil || string(got) != want {
		k.Fail("serialize", "%q %v instead of %q", got, err, want)
		return
	}
	js, _ := json.Marshal(m)
	if got, err = client.SerializeJSON(js, nil, nil); err != nil || string(got) != want {
		k.Fail("serialize-json", "%q %v instead of %q", got, err, want)
	}
	// left out and picked keys
	ex, in := map[string]bool{}, map[string]bool{}
	rest, pick := map[string]interface{}{}, map[string]interface{}{}
	for key, v := range m {
		if k.Intn(2) == 0 {
			ex[key] = true
		} else {
			rest[key] = v
		}
		if k.Intn(2) == 0 {
			in[key] = true
			pick[key] = v
		}
	}
	if got, err = client.SerializeMap(m, nil, ex); err != nil || string(got) != sim.SerializeICONMap(rest) {
		k.Fail("exclude", "%q %v instead of %q", got, err, sim.SerializeICONMap(rest))
	}
	if got, err = client.SerializeMap(m, in, nil); err != nil || string(got) != sim.SerializeICONMap(pick) {
		k.Fail("include", "%q %v instead of %q", got, err, sim.SerializeICONMap(pick))
	}
}

// s04sign: what reaches the node is the transaction that was signed, its hash
// and signer are those any node computes.
func s04sign(k *mon.Case) {
	var sent map[string]interface{}
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var q struct {
			Method string
			Params map[string]interface{}
			ID     json.RawMessage
		}
		json.Unmarshal(b, &q)
		sent = q.Params
		w.Header().Set("Content-Type", "application/json")
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":"0x00","id":%s}`, q.ID)
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	key := sim.Key(k.Rand)
	sk, _ := crypto.ParsePrivateKey(ethcrypto.FromECDSA(key))
	w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
	addr := sim.IconAddr(key)
	if w.Address() != addr {
		k.Fail("address", "%s instead of %s", w.Address(), addr)
	}
	data := jmap(k, 3, false)
	p := &client.TransactionParam{Version: "0x3", FromAddress: client.Address(addr), ToAddress: "cx0123456789012345678901234567890123456789",
		NetworkID: client.NewHexInt(int64(1 + k.Intn(300))), StepLimit: client.NewHexInt(k.Int63n(1 << 40)), DataType: "call",
		Data: &client.CallData{Method: jstr(k), Params: data}}
	if k.Intn(3) == 0 {
		p.Value = client.NewHexInt(k.Int63())
	}
	if k.Intn(3) == 0 {
		p.Nonce = client.NewHexInt(k.Int63n(1000))
	}
	if k.Intn(6) == 0 {
		p.DataType, p.Data = "", nil
	}
	k.Input("%+v data %#v", p, p.Data)
	var before int64
	rounds := 1 + k.Intn(2) // signed again when it expires
	if k.Intn(3) == 0 {
		p.Timestamp = client.NewHexInt(k.Int63n(1 << 50))
	}
	for i := 0; i < rounds; i++ {
		if i > 0 {
			time.Sleep(20 * time.Microsecond)
		}
		before = time.Now().UnixNano() / 1000
		if err := c.SignTransaction(w, p); err != nil {
			k.Fail("sign", "%v", err)
			return
		}
	}
	after := time.Now().UnixNano() / 1000
	if _, err := c.SendTransaction(p); err != nil {
		k.Fail("send", "%v", err)
		return
	}
	sig, _ := sent["signature"].(string)
	delete(sent, "signature")
	ser := "icx_sendTransaction." + sim.SerializeICONMap(sent)
	hash := mbtx.Sha3([]byte(ser))
	k.Seen("%s", ser)
	if string(p.TxHash) != "0x"+hex.EncodeToString(hash) {
		k.Fail("hash", "%s instead of %x for %q", p.TxHash, hash, ser)
	}
	signer, err := sim.RecoverIcon(hash, sig)
	if err != nil || signer != addr {
		k.Fail("signature", "signer %s of %q, %v", signer, sig, err)
	}
	ts, _ := sent["timestamp"].(string)
	if v, err := sim.ParseHex(ts); err != nil || v < before || v > after {
		k.Fail("timestamp", "%s outside %d..%d", ts, before, after)
	}
	for f, want := range map[string]string{"version": "0x3", "from": addr, "to": "cx0123456789012345678901234567890123456789", "nid": string(p.NetworkID), "stepLimit": string(p.StepLimit), "value": string(p.Value), "nonce": string(p.Nonce), "dataType": p.DataType} {
		if s, _ := sent[f].(string); s != want {
			k.Fail("field", "%s %q instead of %q", f, s, want)
		}
	}
}

var _ = strings.Join
