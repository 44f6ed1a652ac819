package sim

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/gorilla/websocket"

	"verifharness/internal/mbtx"
)

// Action is what a fault script makes of one request or notification.
type Action struct {
	Kind  string // "" none, "rpcerr", "http", "drop" (before), "droppost" (after processing), "delay", "raw"
	Code  int
	Msg   string
	Body  string
	Delay time.Duration
}

// Tx is one transaction the destination node received.
type Tx struct {
	Seq    int
	Hash   string
	From   string
	Method string
	Prev   string
	Msg    []byte
	Index  int
	Code   int // 0 ok, else failure code
	Why    string
	State  string // pending, executing, done, dropped
	Raw    map[string]interface{}
}

// IconNode is a simulated ICON node.
type IconNode struct {
	mu   sync.Mutex
	ln   net.Listener
	srv  *http.Server
	NID  string // transaction network id
	BMC  string // contract address cx...
	Addr string // btp address of the BMC

	// source role
	Src     *Source
	DstAddr string // btp address of the linked BMC

	// destination role
	Dst      Verifier
	PrevAddr string
	Relays   map[string]bool // allowed relays hx..
	frags    map[string][][]byte
	fragNext map[string]int
	fragLast map[string]int

	txs    map[string]*Tx
	queue  []*Tx
	log    []*Tx
	Pace   func(n int) (pendings int, executings int) // polls answered before the result
	polls  map[string]int
	budget map[string][2]int
	// Exec decides the fate of a transaction before execution: "" execute,
	// "lose" never executed and unknown afterwards, "fail" failure code Code.
	Exec func(t *Tx) (string, int)
	// Fault is consulted for every request: kind is the RPC method or "ws".
	Fault func(kind string, n int) Action
	// Sniff sees every transaction that arrives, refused or not.
	Sniff func(signature string, timestamp int64)
	// Notify is consulted before the n-th notification on a connection.
	Notify func(conn, n int) Action

	counts     map[string]int
	Problems   []string // protocol violations by the client
	conns      map[*websocket.Conn]struct{}
	nconn      int
	Sent       int // notifications sent
	closed     bool
	StepLimits map[string]bool
	Instant    bool
}

func NewIconNode(nid, bmc string) *IconNode {
	n := &IconNode{NID: nid, BMC: bmc, Addr: "btp://" + nid + ".icon/" + bmc,
		Relays: map[string]bool{}, frags: map[string][][]byte{}, fragNext: map[string]int{}, fragLast: map[string]int{},
		txs: map[string]*Tx{}, polls: map[string]int{}, budget: map[string][2]int{}, counts: map[string]int{},
		conns: map[*websocket.Conn]struct{}{}, StepLimits: map[string]bool{}}
	ln, err := Listen()
	if err != nil {
		panic(err)
	}
	n.ln = ln
	n.srv = &http.Server{Handler: n, ErrorLog: nil}
	n.srv.ErrorLog = quietLog
	go n.srv.Serve(ln)
	return n
}

func (n *IconNode) Endpoint() string { return "http://" + n.ln.Addr().String() + "/api/v3" }

func (n *IconNode) Close() {
	n.mu.Lock()
	n.closed = true
	for c := range n.conns {
		c.Close()
	}
	n.mu.Unlock()
	n.srv.Close()
}

// DropConns closes every websocket connection abruptly.
func (n *IconNode) DropConns() {
	n.mu.Lock()
	defer n.mu.Unlock()
	for c := range n.conns {
		c.UnderlyingConn().Close()
	}
}

func (n *IconNode) Txs() []*Tx {
	n.mu.Lock()
	defer n.mu.Unlock()
	r := make([]*Tx, len(n.log))
	for i, t := range n.log {
		c := *t
		r[i] = &c
	}
	return r
}

func (n *IconNode) Counts() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	r := map[string]int{}
	for k, v := range n.counts {
		r[k] = v
	}
	return r
}

func (n *IconNode) ProblemList() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.Problems...)
}

func (n *IconNode) problem(format string, a ...interface{}) {
	n.Problems = append(n.Problems, fmt.Sprintf(format, a...))
}

type rpcError struct {
	Code    int    `json:"code"`
	Message string `json:"message"`
}

func (n *IconNode) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if strings.HasSuffix(r.URL.Path, "/btp") || strings.HasSuffix(r.URL.Path, "/block") || strings.HasSuffix(r.URL.Path, "/event") {
		n.ws(w, r)
		return
	}
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return
	}
	var req struct {
		Version string          `json:"jsonrpc"`
		Method  string          `json:"method"`
		Params  json.RawMessage `json:"params"`
		ID      interface{}     `json:"id"`
	}
	if err := json.Unmarshal(body, &req); err != nil {
		http.Error(w, err.Error(), 400)
		return
	}
	kind := req.Method
	if kind == "icx_call" {
		var p struct {
			Data struct {
				Method string `json:"method"`
			} `json:"data"`
		}
		json.Unmarshal(req.Params, &p)
		kind = "call:" + p.Data.Method
	}
	n.mu.Lock()
	n.counts[kind]++
	cnt := n.counts[kind]
	var act Action
	if n.Fault != nil {
		act = n.Fault(kind, cnt)
	}
	if n.closed {
		act = Action{Kind: "drop"}
	}
	if n.Sniff != nil && kind == "icx_sendTransaction" {
		var p struct{ Timestamp, Signature string }
		json.Unmarshal(req.Params, &p)
		ts, _ := ParseHex(p.Timestamp)
		n.Sniff(p.Signature, ts)
	}
	n.mu.Unlock()
	hangup := func() {
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				c.Close()
			}
		}
	}
	reply := func(status int, v interface{}) {
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(status)
		b, _ := json.Marshal(v)
		w.Write(b)
	}
	fail := func(code int, msg string) {
		reply(400, map[string]interface{}{"jsonrpc": "2.0", "error": rpcError{code, msg}, "id": req.ID})
	}
	switch act.Kind {
	case "drop":
		hangup()
		return
	case "rpcerr":
		fail(act.Code, act.Msg)
		return
	case "http":
		w.Header().Set("Content-Type", "text/plain")
		w.WriteHeader(act.Code)
		io.WriteString(w, act.Body)
		return
	case "raw":
		w.Header().Set("Content-Type", "application/json")
		io.WriteString(w, act.Body)
		return
	case "delay":
		time.Sleep(act.Delay)
	}
	res, rerr := n.handle(req.Method, req.Params)
	if act.Kind == "keep-then-dup" { // the node has the transaction already
		fail(-31000, act.Msg)
		return
	}
	if act.Kind == "droppost" {
		hangup()
		return
	}
	if rerr != nil {
		fail(rerr.Code, rerr.Message)
		return
	}
	reply(200, map[string]interface{}{"jsonrpc": "2.0", "result": res, "id": req.ID})
}

func hexInt(v int64) string {
	if v < 0 {
		return "-0x" + strconv.FormatInt(-v, 16)
	}
	return "0x" + strconv.FormatInt(v, 16)
}

// ParseHex parses a T_INT.
func ParseHex(s string) (int64, error) {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if !strings.HasPrefix(s, "0x") {
		return 0, fmt.Errorf("no 0x prefix in %q", s)
	}
	v, err := strconv.ParseInt(s[2:], 16, 64)
	if neg {
		v = -v
	}
	return v, err
}

func (n *IconNode) handle(method string, params json.RawMessage) (interface{}, *rpcError) {
	n.mu.Lock()
	defer n.mu.Unlock()
	switch method {
	case "icx_call":
		var p struct {
			From string `json:"from"`
			To   string `json:"to"`
			Type string `json:"dataType"`
			Data struct {
				Method string            `json:"method"`
				Params map[string]string `json:"params"`
			} `json:"data"`
		}
		if err := json.Unmarshal(params, &p); err != nil {
			n.problem("icx_call params: %v", err)
			return nil, &rpcError{-32602, err.Error()}
		}
		if p.To != n.BMC || p.Type != "call" {
			n.problem("icx_call to %q type %q", p.To, p.Type)
			return nil, &rpcError{-31004, "E1004:NotFound"}
		}
		link := p.Data.Params["_link"]
		switch p.Data.Method {
		case "getBTPLinkNetworkId":
			if n.Src == nil || link != n.DstAddr {
				return nil, &rpcError{-30032, "Reverted(0): NotExistsLink " + link}
			}
			return hexInt(n.Src.NID), nil
		case "getBTPLinkOffset":
			if n.Src == nil || link != n.DstAddr {
				return nil, &rpcError{-30032, "Reverted(0): NotExistsLink " + link}
			}
			return hexInt(n.Src.LinkOffset), nil
		case "getStatus":
			if n.Dst == nil || link != n.PrevAddr {
				return nil, &rpcError{-30032, "Reverted(0): NotExistsLink " + link}
			}
			st := n.Dst.Status()
			ver := map[string]interface{}{"height": hexInt(st.Height)}
			if st.Extra != nil {
				ver["extra"] = "0x" + hex.EncodeToString(st.Extra)
			}
			return map[string]interface{}{"tx_seq": hexInt(st.TxSeq), "rx_seq": hexInt(st.RxSeq), "verifier": ver,
				"relays": []interface{}{}, "cur_height": "0x10"}, nil
		}
		return nil, &rpcError{-30002, "MethodNotFound"}
	case "btp_getNetworkInfo":
		var p struct{ Id string }
		json.Unmarshal(params, &p)
		if id, err := ParseHex(p.Id); n.Src == nil || err != nil || id != n.Src.NID {
			return nil, &rpcError{-31004, "E1004:NotFound"}
		}
		return map[string]interface{}{"startHeight": hexInt(n.Src.StartHeight), "networkTypeID": "0x1", "networkName": "sim",
			"open": "0x1", "networkID": hexInt(n.Src.NID), "nextMessageSN": "0x0"}, nil
	case "btp_getMessages", "btp_getHeader", "btp_getProof":
		var p struct {
			Height    string `json:"height"`
			NetworkID string `json:"networkID"`
		}
		json.Unmarshal(params, &p)
		id, err := ParseHex(p.NetworkID)
		h, err2 := ParseHex(p.Height)
		if err != nil || err2 != nil {
			n.problem("%s params %s", method, params)
			return nil, &rpcError{-32602, "invalid params"}
		}
		if n.Src == nil || id != n.Src.NID {
			return nil, &rpcError{-31004, "E1004:NotFound"}
		}
		b := n.Src.ByHeight(h)
		if b == nil {
			return nil, &rpcError{-31004, "E1004:NotFound"}
		}
		switch method {
		case "btp_getHeader":
			return base64.StdEncoding.EncodeToString(b.Header), nil
		case "btp_getProof":
			return base64.StdEncoding.EncodeToString(b.Proof), nil
		}
		r := make([]string, 0)
		for _, m := range b.Msgs {
			r = append(r, base64.StdEncoding.EncodeToString(m))
		}
		return r, nil
	case "icx_sendTransaction":
		return n.sendTx(params)
	case "icx_getTransactionResult":
		var p struct {
			Hash string `json:"txHash"`
		}
		json.Unmarshal(params, &p)
		return n.txResult(p.Hash)
	}
	return nil, &rpcError{-32601, "MethodNotFound"}
}

// --- transactions

// SerializeICON is the transaction serialization of the ICON JSON-RPC API.
func SerializeICON(v interface{}) string {
	esc := strings.NewReplacer("\\", "\\\\", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]", ".", "\\.")
	switch t := v.(type) {
	case nil:
		return "\\0"
	case string:
		return esc.Replace(t)
	case []interface{}:
		var s []string
		for _, i := range t {
			s = append(s, SerializeICON(i))
		}
		return "[" + strings.Join(s, ".") + "]"
	case map[string]interface{}:
		return "{" + SerializeICONMap(t) + "}"
	}
	return fmt.Sprintf("?%T", v)
}

func SerializeICONMap(m map[string]interface{}) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var s []string
	esc := strings.NewReplacer("\\", "\\\\", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]", ".", "\\.")
	for _, k := range keys {
		s = append(s, esc.Replace(k)+"."+SerializeICON(m[k]))
	}
	return strings.Join(s, ".")
}

// IconAddress is the address of an uncompressed public key.
func IconAddress(pub []byte) string {
	h := mbtx.Sha3(pub[1:])
	return "hx" + hex.EncodeToString(h[len(h)-20:])
}

// RecoverIcon recovers the signer of a transaction.
func RecoverIcon(hash []byte, sig string) (string, error) {
	b, err := base64.StdEncoding.DecodeString(sig)
	if err != nil {
		return "", err
	}
	if len(b) != 65 {
		return "", fmt.Errorf("signature length %d", len(b))
	}
	pub, err := crypto.Ecrecover(hash, b)
	if err != nil {
		return "", err
	}
	return IconAddress(pub), nil
}

func (n *IconNode) sendTx(params json.RawMessage) (interface{}, *rpcError) {
	var m map[string]interface{}
	if err := json.Unmarshal(params, &m); err != nil {
		return nil, &rpcError{-32602, err.Error()}
	}
	str := func(k string) string { s, _ := m[k].(string); return s }
	sig := str("signature")
	c := map[string]interface{}{}
	for k, v := range m {
		if k != "signature" {
			c[k] = v
		}
	}
	hash := mbtx.Sha3([]byte("icx_sendTransaction." + SerializeICONMap(c)))
	signer, err := RecoverIcon(hash, sig)
	if err != nil || signer != str("from") {
		n.problem("bad signature: signer %s from %s err %v", signer, str("from"), err)
		return nil, &rpcError{-31000, "E2005:InvalidSignature"}
	}
	hs := "0x" + hex.EncodeToString(hash)
	if str("version") != "0x3" || str("nid") != n.NID || str("to") != n.BMC || str("dataType") != "call" {
		n.problem("bad transaction fields: version=%s nid=%s to=%s dataType=%s", str("version"), str("nid"), str("to"), str("dataType"))
		return nil, &rpcError{-31000, "E2005:InvalidTransaction"}
	}
	if v, err := ParseHex(str("stepLimit")); err != nil || v <= 0 {
		n.problem("bad stepLimit %q", str("stepLimit"))
	}
	n.StepLimits[str("stepLimit")] = true
	if v, err := ParseHex(str("timestamp")); err != nil || v < 1e15 {
		n.problem("bad timestamp %q", str("timestamp"))
	}
	if len(params) > 512*1024 {
		n.problem("transaction of %d bytes exceeds the node's limit", len(params))
		return nil, &rpcError{-31000, "E2005:InvalidTransaction too big"}
	}
	if _, ok := n.txs[hs]; ok {
		return nil, &rpcError{-31000, "E2000:DuplicateTransaction"}
	}
	data, _ := m["data"].(map[string]interface{})
	dp, _ := data["params"].(map[string]interface{})
	ps := func(k string) string { s, _ := dp[k].(string); return s }
	t := &Tx{Seq: len(n.log), Hash: hs, From: signer, Prev: ps("_prev"), State: "pending", Raw: m}
	t.Method, _ = data["method"].(string)
	t.Msg, err = base64.URLEncoding.DecodeString(ps("_msg"))
	if err != nil {
		n.problem("message is not URL safe base64: %v", err)
	}
	if t.Method == "handleFragment" {
		i, err := ParseHex(ps("_idx"))
		if err != nil {
			n.problem("bad fragment index %q", ps("_idx"))
		}
		t.Index = int(i)
	}
	n.txs[hs] = t
	n.log = append(n.log, t)
	n.queue = append(n.queue, t)
	if n.Pace != nil {
		p, e := n.Pace(t.Seq)
		n.budget[hs] = [2]int{p, e}
	}
	if b := n.budget[hs]; b[0]+b[1] == 0 && len(n.queue) == 1 {
		n.execUpTo(t)
	}
	return hs, nil
}

func (n *IconNode) execUpTo(t *Tx) {
	for len(n.queue) > 0 {
		q := n.queue[0]
		n.queue = n.queue[1:]
		n.exec(q)
		if q == t {
			return
		}
	}
}

// Flush executes everything pending.
func (n *IconNode) Flush() {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.queue) > 0 {
		n.execUpTo(n.queue[len(n.queue)-1])
	}
}

func (n *IconNode) exec(t *Tx) {
	if n.Exec != nil {
		switch fate, code := n.Exec(t); fate {
		case "lose":
			t.State = "dropped"
			return
		case "fail":
			t.State, t.Code, t.Why = "done", code, "injected"
			return
		}
	}
	t.State = "done"
	revert := func(code int, why string) { t.Code, t.Why = 32+code, why }
	if t.Prev != n.PrevAddr {
		revert(18, "NotExistsLink "+t.Prev)
		return
	}
	if len(n.Relays) > 0 && !n.Relays[t.From] {
		revert(BMCRevertUnauthorized, "not registered relay "+t.From)
		return
	}
	handle := func(msg []byte) {
		if c, why := n.Dst.Handle(msg); c != 0 {
			revert(c, why)
		}
	}
	switch t.Method {
	case "handleRelayMessage":
		handle(t.Msg)
	case "handleFragment":
		key := t.Prev + "|" + t.From
		if t.Index < 0 {
			n.fragLast[key] = -t.Index
			n.fragNext[key] = -t.Index - 1
			n.frags[key] = [][]byte{t.Msg}
			return
		}
		if _, ok := n.frags[key]; !ok || n.fragNext[key] != t.Index {
			revert(10, fmt.Sprintf("invalid _idx %d expected %d", t.Index, n.fragNext[key]))
			return
		}
		if t.Index == 0 {
			all := bytes.Join(append(append([][]byte{}, n.frags[key]...), t.Msg), nil)
			handle(all)
			if t.Code == 0 {
				delete(n.frags, key)
			}
		} else {
			n.fragNext[key] = t.Index - 1
			n.frags[key] = append(n.frags[key], t.Msg)
		}
	default:
		revert(0, "unknown method "+t.Method)
	}
}

func (n *IconNode) txResult(hash string) (interface{}, *rpcError) {
	t, ok := n.txs[hash]
	if !ok {
		return nil, &rpcError{-31004, "E1004:NotFound"}
	}
	n.polls[hash]++
	b := n.budget[hash]
	if t.State == "pending" {
		if n.polls[hash] <= b[0] {
			return nil, &rpcError{-31002, "E1005:Pending"}
		}
		if n.polls[hash] <= b[0]+b[1] {
			return nil, &rpcError{-31003, "E1006:Executing"}
		}
		n.execUpTo(t)
	}
	if t.State == "dropped" {
		return nil, &rpcError{-31004, "E1004:NotFound"}
	}
	r := map[string]interface{}{"to": n.BMC, "cumulativeStepUsed": "0x1", "stepUsed": "0x1", "stepPrice": "0x0",
		"eventLogs": []interface{}{}, "logsBloom": "0x0", "blockHash": "0x" + strings.Repeat("ab", 32), "blockHeight": "0x10",
		"txIndex": "0x0", "txHash": hash}
	if t.Code == 0 {
		r["status"] = "0x1"
	} else {
		r["status"] = "0x0"
		r["failure"] = map[string]interface{}{"code": hexInt(int64(t.Code)), "message": t.Why}
	}
	return r, nil
}

// --- websocket

var upgrader = websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}

func (n *IconNode) ws(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	n.counts["ws"]++
	cnt := n.counts["ws"]
	var act Action
	if n.Fault != nil {
		act = n.Fault("ws", cnt)
	}
	closed := n.closed
	n.mu.Unlock()
	if closed || act.Kind == "http" {
		http.Error(w, "unavailable", 503)
		return
	}
	if act.Kind == "delay" {
		time.Sleep(act.Delay)
	}
	conn, err := upgrader.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	n.mu.Lock()
	n.conns[conn] = struct{}{}
	n.nconn++
	id := n.nconn
	n.mu.Unlock()
	defer func() {
		n.mu.Lock()
		delete(n.conns, conn)
		n.mu.Unlock()
		conn.Close()
	}()
	if act.Kind == "drop" {
		return
	}
	var req struct {
		Height    string `json:"height"`
		NetworkID string `json:"networkID"`
		ProofFlag string `json:"proofFlag"`
	}
	if err := conn.ReadJSON(&req); err != nil {
		return
	}
	h, err := ParseHex(req.Height)
	id64, err2 := ParseHex(req.NetworkID)
	n.mu.Lock()
	src := n.Src
	if err != nil || err2 != nil {
		n.problem("ws request height=%q networkID=%q", req.Height, req.NetworkID)
	}
	n.mu.Unlock()
	if src == nil || id64 != src.NID || act.Kind == "rpcerr" {
		conn.WriteJSON(map[string]interface{}{"code": 1000, "message": "bad request"})
		return
	}
	if conn.WriteJSON(map[string]interface{}{"code": 0}) != nil {
		return
	}
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		for {
			if _, _, err := conn.ReadMessage(); err != nil {
				return
			}
		}
	}()
	for i := 1; ; i++ {
		var b *Block
		for {
			var ch <-chan struct{}
			b, ch = src.From(h)
			if b != nil {
				break
			}
			select {
			case <-ch:
			case <-gone:
				return
			}
		}
		var act Action
		n.mu.Lock()
		if n.Notify != nil {
			act = n.Notify(id, i)
		}
		n.Sent++
		n.mu.Unlock()
		switch act.Kind {
		case "drop":
			conn.UnderlyingConn().Close()
			return
		case "close":
			conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(act.Code, act.Msg))
			time.Sleep(20 * time.Millisecond)
			return
		case "raw":
			conn.WriteMessage(websocket.TextMessage, []byte(act.Body))
		case "delay":
			select {
			case <-time.After(act.Delay):
			case <-gone:
				return
			}
		}
		if conn.WriteJSON(map[string]interface{}{"header": base64.StdEncoding.EncodeToString(b.Header)}) != nil {
			return
		}
		h = b.Height + 1
	}
}

var _ = big.NewInt

// Set changes the node's settings while it runs.
func (n *IconNode) Set(f func()) {
	n.mu.Lock()
	defer n.mu.Unlock()
	f()
}
