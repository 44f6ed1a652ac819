package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"
)

// written from solidity/bmc/contracts/interfaces/IBMCPeriphery.sol
const ethABI = `[
{"type":"function","name":"handleRelayMessage","stateMutability":"nonpayable","outputs":[],
 "inputs":[{"name":"_prev","type":"string"},{"name":"_msg","type":"bytes"}]},
{"type":"function","name":"getStatus","stateMutability":"view","inputs":[{"name":"_link","type":"string"}],
 "outputs":[{"name":"_linkStats","type":"tuple","components":[{"name":"rxSeq","type":"uint256"},{"name":"txSeq","type":"uint256"},
  {"name":"verifier","type":"tuple","components":[{"name":"height","type":"uint256"},{"name":"extra","type":"bytes"}]},
  {"name":"currentHeight","type":"uint256"}]}]},
{"type":"event","name":"Message","anonymous":false,"inputs":[{"name":"_next","type":"string","indexed":false},
 {"name":"_seq","type":"uint256","indexed":false},{"name":"_msg","type":"bytes","indexed":false}]}
]`

var EthABI = func() abi.ABI {
	a, err := abi.JSON(strings.NewReader(ethABI))
	if err != nil {
		panic(err)
	}
	return a
}()

// EthEvent is one Message event of the source BMC.
type EthEvent struct {
	Next string
	Seq  int64
	Msg  []byte
	Addr common.Address
}

// EthTx is one transaction received by the destination.
type EthTx struct {
	Seq    int
	Hash   common.Hash
	From   common.Address
	Nonce  uint64
	Prev   string
	Msg    []byte
	Code   int
	Why    string
	State  string
	Gas    uint64
	Tx     *types.Transaction
	Height int64
}

// EthNode is a simulated Ethereum node.
type EthNode struct {
	mu   sync.Mutex
	ln   net.Listener
	srv  *http.Server
	rpcs *rpc.Server
	BMC  common.Address
	Addr string

	ChainID int64
	headers []*types.Header
	logs    map[common.Hash][]*types.Log
	subs    map[chan *types.Header]struct{}
	Hide    int // newest blocks not yet announced

	// source role
	SeqHeight map[int64]int64

	// destination role
	Dst      Verifier
	PrevAddr string
	Relays   map[common.Address]bool
	nonces   map[common.Address]uint64
	txs      map[common.Hash]*EthTx
	log      []*EthTx
	queue    []*EthTx
	polls    map[common.Hash]int
	Pace     func(n int) int
	Exec     func(t *EthTx) (string, int)
	// Fault is consulted for every RPC; an error is returned instead of the answer.
	Fault func(method string, n int) Action
	// RevertText formats the revert reason.
	RevertText func(code int, why string) string

	counts   map[string]int
	Problems []string
	conns    map[net.Conn]struct{}
	closed   bool
}

func NewEthNode(nid string, chainID int64, r interface{ Read([]byte) (int, error) }) *EthNode {
	var a [20]byte
	r.Read(a[:])
	n := &EthNode{BMC: common.BytesToAddress(a[:]), ChainID: chainID, logs: map[common.Hash][]*types.Log{},
		subs: map[chan *types.Header]struct{}{}, SeqHeight: map[int64]int64{}, Relays: map[common.Address]bool{},
		nonces: map[common.Address]uint64{}, txs: map[common.Hash]*EthTx{}, polls: map[common.Hash]int{},
		counts: map[string]int{}, conns: map[net.Conn]struct{}{}}
	n.Addr = "btp://" + nid + ".eth/" + n.BMC.Hex()
	n.headers = append(n.headers, n.mkHeader(0, common.Hash{}))
	n.RevertText = func(code int, why string) string { return fmt.Sprintf("execution reverted: %d: %s", code, why) }
	n.rpcs = rpc.NewServer()
	if err := n.rpcs.RegisterName("eth", &ethAPI{n}); err != nil {
		panic(err)
	}
	ws := n.rpcs.WebsocketHandler([]string{"*"})
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
			ws.ServeHTTP(w, r)
			return
		}
		n.rpcs.ServeHTTP(w, r)
	})
	ln, err := Listen()
	if err != nil {
		panic(err)
	}
	n.ln = ln
	n.srv = &http.Server{Handler: h, ErrorLog: quietLog, ConnState: func(c net.Conn, s http.ConnState) {
		n.mu.Lock()
		defer n.mu.Unlock()
		switch s {
		case http.StateNew:
			n.conns[c] = struct{}{}
		case http.StateClosed:
			delete(n.conns, c)
		}
	}}
	go n.srv.Serve(ln)
	return n
}

func (n *EthNode) HTTP() string { return "http://" + n.ln.Addr().String() }
func (n *EthNode) WS() string   { return "ws://" + n.ln.Addr().String() }

// DropConns closes every connection abruptly.
func (n *EthNode) DropConns() {
	n.mu.Lock()
	defer n.mu.Unlock()
	for c := range n.conns {
		c.Close()
	}
}

func (n *EthNode) Close() {
	n.mu.Lock()
	n.closed = true
	n.mu.Unlock()
	n.srv.Close()
	n.DropConns()
	n.rpcs.Stop()
}

func (n *EthNode) mkHeader(num int64, parent common.Hash) *types.Header {
	return &types.Header{Number: big.NewInt(num), ParentHash: parent, Difficulty: big.NewInt(2), GasLimit: 30000000,
		Time: uint64(1600000000 + num), Extra: make([]byte, 97), UncleHash: types.EmptyUncleHash,
		TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash}
}

func (n *EthNode) problem(format string, a ...interface{}) {
	n.Problems = append(n.Problems, fmt.Sprintf(format, a...))
}

func (n *EthNode) ProblemList() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.Problems...)
}

func (n *EthNode) Counts() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	r := map[string]int{}
	for k, v := range n.counts {
		r[k] = v
	}
	return r
}

func (n *EthNode) Height() int64 {
	n.mu.Lock()
	defer n.mu.Unlock()
	return int64(len(n.headers) - 1)
}

func (n *EthNode) Txs() []*EthTx {
	n.mu.Lock()
	defer n.mu.Unlock()
	r := make([]*EthTx, len(n.log))
	for i, t := range n.log {
		c := *t
		r[i] = &c
	}
	return r
}

// AddBlock mines a block holding the events, grouped by transaction.
func (n *EthNode) AddBlock(txs [][]EthEvent) int64 {
	n.mu.Lock()
	h := n.mkHeader(int64(len(n.headers)), n.headers[len(n.headers)-1].Hash())
	var logs []*types.Log
	bh := h.Hash()
	idx := uint(0)
	for ti, evs := range txs {
		for _, e := range evs {
			data, err := EthABI.Events["Message"].Inputs.Pack(e.Next, big.NewInt(e.Seq), e.Msg)
			if err != nil {
				panic(err)
			}
			addr := e.Addr
			if addr == (common.Address{}) {
				addr = n.BMC
			}
			logs = append(logs, &types.Log{Address: addr, Topics: []common.Hash{crypto.Keccak256Hash([]byte("Message(string,uint256,bytes)"))},
				Data: data, BlockNumber: h.Number.Uint64(), TxHash: common.BigToHash(big.NewInt(int64(ti + 1))), TxIndex: uint(ti), BlockHash: bh, Index: idx})
			idx++
			n.SeqHeight[e.Seq] = h.Number.Int64()
		}
	}
	n.headers = append(n.headers, h)
	n.logs[bh] = logs
	var chs []chan *types.Header
	for c := range n.subs {
		chs = append(chs, c)
	}
	for _, c := range chs {
		c <- h
	}
	n.mu.Unlock()
	return h.Number.Int64()
}

func (n *EthNode) enter(method string) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.counts[method]++
	if n.closed {
		return errors.New("node is closed")
	}
	if n.Fault == nil {
		return nil
	}
	a := n.Fault(method, n.counts[method])
	switch a.Kind {
	case "rpcerr":
		return errors.New(a.Msg)
	case "drop":
		for c := range n.conns {
			c.Close()
		}
		return errors.New("connection is dropped")
	}
	return nil
}

type ethAPI struct{ n *EthNode }

func (a *ethAPI) ChainId() (*hexutil.Big, error) {
	if err := a.n.enter("eth_chainId"); err != nil {
		return nil, err
	}
	return (*hexutil.Big)(big.NewInt(a.n.ChainID)), nil
}

func (a *ethAPI) BlockNumber() (hexutil.Uint64, error) {
	if err := a.n.enter("eth_blockNumber"); err != nil {
		return 0, err
	}
	return hexutil.Uint64(a.n.Height()), nil
}

func (a *ethAPI) GasPrice() (*hexutil.Big, error) {
	if err := a.n.enter("eth_gasPrice"); err != nil {
		return nil, err
	}
	return (*hexutil.Big)(big.NewInt(1000000007)), nil
}

func (a *ethAPI) MaxPriorityFeePerGas() (*hexutil.Big, error) {
	return (*hexutil.Big)(big.NewInt(1)), nil
}

func (a *ethAPI) EstimateGas(arg map[string]interface{}, blk *rpc.BlockNumber) (hexutil.Uint64, error) {
	if err := a.n.enter("eth_estimateGas"); err != nil {
		return 0, err
	}
	return 100000, nil
}

func (a *ethAPI) GetCode(addr common.Address, blk rpc.BlockNumber) (hexutil.Bytes, error) {
	if err := a.n.enter("eth_getCode"); err != nil {
		return nil, err
	}
	return hexutil.Bytes{1}, nil
}

func (a *ethAPI) GetBlockByNumber(num rpc.BlockNumber, full bool) (json.RawMessage, error) {
	if err := a.n.enter("eth_getBlockByNumber"); err != nil {
		return nil, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	i := int64(num)
	if i < 0 {
		i = int64(len(a.n.headers) - 1)
	}
	if i >= int64(len(a.n.headers)) {
		return json.RawMessage("null"), nil
	}
	h := a.n.headers[i]
	b, err := json.Marshal(h)
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	m["transactions"] = []interface{}{}
	m["uncles"] = []interface{}{}
	m["hash"] = h.Hash()
	b, err = json.Marshal(m)
	return b, err
}

func (a *ethAPI) GetLogs(q map[string]interface{}) ([]*types.Log, error) {
	if err := a.n.enter("eth_getLogs"); err != nil {
		return nil, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	want := map[common.Address]bool{}
	switch t := q["address"].(type) {
	case string:
		want[common.HexToAddress(t)] = true
	case []interface{}:
		for _, i := range t {
			s, _ := i.(string)
			want[common.HexToAddress(s)] = true
		}
	}
	topics := map[common.Hash]bool{}
	if ts, _ := q["topics"].([]interface{}); len(ts) > 0 {
		switch t := ts[0].(type) {
		case string:
			topics[common.HexToHash(t)] = true
		case []interface{}:
			for _, i := range t {
				s, _ := i.(string)
				topics[common.HexToHash(s)] = true
			}
		}
	}
	var hashes []common.Hash
	if s, ok := q["blockHash"].(string); ok {
		hashes = append(hashes, common.HexToHash(s))
	} else {
		num := func(k string) int {
			s, _ := q[k].(string)
			v, err := hexutil.DecodeUint64(s)
			if err != nil {
				return len(a.n.headers) - 1
			}
			return int(v)
		}
		for i := num("fromBlock"); i <= num("toBlock") && i < len(a.n.headers); i++ {
			hashes = append(hashes, a.n.headers[i].Hash())
		}
	}
	res := make([]*types.Log, 0)
	for _, h := range hashes {
		ls, ok := a.n.logs[h]
		if !ok && h != a.n.headers[0].Hash() {
			return nil, errors.New("unknown block")
		}
		for _, l := range ls {
			if (len(want) == 0 || want[l.Address]) && (len(topics) == 0 || topics[l.Topics[0]]) {
				res = append(res, l)
			}
		}
	}
	return res, nil
}

func (a *ethAPI) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	if err := a.n.enter("eth_subscribe"); err != nil {
		return nil, err
	}
	nt, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	sub := nt.CreateSubscription()
	ch := make(chan *types.Header, 4096)
	a.n.mu.Lock()
	a.n.subs[ch] = struct{}{}
	a.n.mu.Unlock()
	go func() {
		defer func() {
			a.n.mu.Lock()
			delete(a.n.subs, ch)
			a.n.mu.Unlock()
		}()
		for {
			select {
			case h := <-ch:
				nt.Notify(sub.ID, h)
			case <-sub.Err():
				return
			case <-nt.Closed():
				return
			}
		}
	}()
	return sub, nil
}

// revertErr carries the revert reason.
type revertErr struct{ s string }

func (e *revertErr) Error() string          { return e.s }
func (e *revertErr) ErrorCode() int         { return 3 }
func (e *revertErr) ErrorData() interface{} { return "0x" }

func (a *ethAPI) Call(arg map[string]interface{}, blk interface{}) (hexutil.Bytes, error) {
	to, _ := arg["to"].(string)
	ds, _ := arg["data"].(string)
	if ds == "" {
		ds, _ = arg["input"].(string)
	}
	data, err := hexutil.Decode(ds)
	if err != nil || len(data) < 4 {
		return nil, errors.New("bad call data")
	}
	m, err := EthABI.MethodById(data[:4])
	if err != nil {
		return nil, err
	}
	if err := a.n.enter("eth_call:" + m.Name); err != nil {
		return nil, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	if common.HexToAddress(to) != a.n.BMC {
		a.n.problem("call to %s", to)
		return nil, nil
	}
	args, err := m.Inputs.Unpack(data[4:])
	if err != nil {
		return nil, err
	}
	switch m.Name {
	case "getStatus":
		if a.n.Dst == nil || args[0].(string) != a.n.PrevAddr {
			return nil, &revertErr{"execution reverted: 16: NotExistsLink"}
		}
		st := a.n.Dst.Status()
		type vs struct {
			Height *big.Int
			Extra  []byte
		}
		type ls struct {
			RxSeq, TxSeq  *big.Int
			Verifier      vs
			CurrentHeight *big.Int
		}
		return m.Outputs.Pack(ls{big.NewInt(st.RxSeq), big.NewInt(st.TxSeq), vs{big.NewInt(st.Height), st.Extra}, big.NewInt(int64(len(a.n.headers)))})
	case "handleRelayMessage":
		// replay of a reverted transaction: the reason it reverted with
		for i := len(a.n.log) - 1; i >= 0; i-- {
			t := a.n.log[i]
			if t.State == "done" && string(t.Tx.Data()) == string(data) && t.Code != 0 {
				if from, _ := arg["from"].(string); common.HexToAddress(from) != t.From { // not a relay of the link
					return nil, &revertErr{a.n.RevertText(11, "Unauthorized")}
				}
				return nil, &revertErr{a.n.RevertText(t.Code, t.Why)}
			}
		}
		return nil, nil
	}
	return nil, nil
}

func (a *ethAPI) GetTransactionCount(addr common.Address, blk rpc.BlockNumber) (hexutil.Uint64, error) {
	if err := a.n.enter("eth_getTransactionCount"); err != nil {
		return 0, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	return hexutil.Uint64(a.n.nonces[addr]), nil
}

func (a *ethAPI) SendRawTransaction(raw hexutil.Bytes) (common.Hash, error) {
	if err := a.n.enter("eth_sendRawTransaction"); err != nil {
		return common.Hash{}, err
	}
	n := a.n
	n.mu.Lock()
	defer n.mu.Unlock()
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		n.problem("transaction does not decode: %v", err)
		return common.Hash{}, err
	}
	from, err := types.Sender(types.LatestSignerForChainID(big.NewInt(n.ChainID)), tx)
	if err != nil {
		n.problem("transaction signature: %v", err)
		return common.Hash{}, err
	}
	if tx.To() == nil || *tx.To() != n.BMC {
		n.problem("transaction to %v", tx.To())
		return common.Hash{}, errors.New("bad recipient")
	}
	if tx.Value().Sign() != 0 {
		n.problem("transaction carries value %v", tx.Value())
	}
	if tx.GasPrice().Sign() <= 0 || tx.Gas() == 0 {
		n.problem("gas %d gas price %v", tx.Gas(), tx.GasPrice())
	}
	if _, ok := n.txs[tx.Hash()]; ok {
		return common.Hash{}, errors.New("already known")
	}
	if tx.Nonce() < n.nonces[from] {
		return common.Hash{}, errors.New("nonce too low")
	}
	if tx.Nonce() > n.nonces[from] {
		n.problem("nonce gap: %d after %d", tx.Nonce(), n.nonces[from])
		return common.Hash{}, errors.New("nonce too high")
	}
	n.nonces[from]++
	t := &EthTx{Seq: len(n.log), Hash: tx.Hash(), From: from, Nonce: tx.Nonce(), State: "pending", Tx: tx, Gas: tx.Gas()}
	if len(tx.Data()) >= 4 {
		if m, err := EthABI.MethodById(tx.Data()[:4]); err == nil && m.Name == "handleRelayMessage" {
			if args, err := m.Inputs.Unpack(tx.Data()[4:]); err == nil {
				t.Prev, t.Msg = args[0].(string), args[1].([]byte)
			} else {
				n.problem("call data: %v", err)
			}
		} else {
			n.problem("unexpected method %x", tx.Data()[:4])
		}
	}
	n.txs[t.Hash] = t
	n.log = append(n.log, t)
	n.queue = append(n.queue, t)
	if n.Pace == nil && len(n.queue) == 1 {
		n.execUpTo(t)
	}
	return t.Hash, nil
}

func (n *EthNode) execUpTo(t *EthTx) {
	for len(n.queue) > 0 {
		q := n.queue[0]
		n.queue = n.queue[1:]
		n.exec(q)
		if q == t {
			return
		}
	}
}

func (n *EthNode) Flush() {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.queue) > 0 {
		n.execUpTo(n.queue[len(n.queue)-1])
	}
}

func (n *EthNode) exec(t *EthTx) {
	if n.Exec != nil {
		switch fate, code := n.Exec(t); fate {
		case "lose":
			t.State = "dropped"
			return
		case "fail":
			t.State, t.Code, t.Why = "done", code, "injected"
			return
		}
	}
	t.State = "done"
	if t.Prev != n.PrevAddr {
		t.Code, t.Why = 16, "NotExistsLink"
		return
	}
	if len(n.Relays) > 0 && !n.Relays[t.From] {
		t.Code, t.Why = 11, "Unauthorized"
		return
	}
	t.Code, t.Why = n.Dst.Handle(t.Msg)
}

func (a *ethAPI) GetTransactionByHash(h common.Hash) (json.RawMessage, error) {
	if err := a.n.enter("eth_getTransactionByHash"); err != nil {
		return nil, err
	}
	n := a.n
	n.mu.Lock()
	defer n.mu.Unlock()
	t, ok := n.txs[h]
	if !ok || t.State == "dropped" {
		return json.RawMessage("null"), nil
	}
	n.polls[h]++
	if t.State == "pending" {
		p := 0
		if n.Pace != nil {
			p = n.Pace(t.Seq)
		}
		if n.polls[h] > p {
			n.execUpTo(t)
			if t.State == "dropped" {
				return json.RawMessage("null"), nil
			}
		}
	}
	b, err := json.Marshal(t.Tx)
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	m["from"] = t.From
	if t.State == "done" {
		m["blockNumber"] = hexutil.Uint64(1)
		m["blockHash"] = n.headers[0].Hash()
	}
	return json.Marshal(m)
}

func (a *ethAPI) GetTransactionReceipt(h common.Hash) (json.RawMessage, error) {
	if err := a.n.enter("eth_getTransactionReceipt"); err != nil {
		return nil, err
	}
	n := a.n
	n.mu.Lock()
	defer n.mu.Unlock()
	t, ok := n.txs[h]
	if !ok || t.State != "done" {
		return json.RawMessage("null"), nil
	}
	st := uint64(1)
	if t.Code != 0 {
		st = 0
	}
	r := &types.Receipt{Status: st, TxHash: h, GasUsed: 1, CumulativeGasUsed: 1, Logs: []*types.Log{}, BlockNumber: big.NewInt(1)}
	return json.Marshal(r)
}

// Set changes the node's settings while it runs.
func (n *EthNode) Set(f func()) {
	n.mu.Lock()
	defer n.mu.Unlock()
	f()
}

// Forget gives the nonces of lost transactions back.
func (n *EthNode) Forget(a common.Address) {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := uint64(0)
	for _, t := range n.log {
		if t.From == a && t.State != "dropped" {
			c++
		}
	}
	n.nonces[a] = c
}

func (n *EthNode) Subscribers() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.subs)
}

func (n *EthNode) HashOf(h int64) common.Hash {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.headers[h].Hash()
}

// HeightLocked is Height for the hooks.
func (n *EthNode) HeightLocked() int64 { return int64(len(n.headers) - 1) }
