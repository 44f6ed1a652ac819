package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"

	"verifharness/internal/mon"
)

func init() {
	props["M01"] = func(c *mon.Ctx) {
		c.RunP("single", c.N(2500, 60000), 16, m01)
		c.RunP("many", c.N(150, 4000), 8, m01many)
	}
}

var wsUp = websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}

// note is one notification and what the caller must see.
type note struct {
	frame string
	want  interface{}
}

func mkNote(k *mon.Case, kind string, i int) note {
	hs := func() string { return fmt.Sprintf("0x%x", k.Int63()) }
	switch kind {
	case "btp":
		v := &client.BTPNotification{Header: fmt.Sprintf("h%d-%s", i, strings.Repeat("A", k.Intn(1<<uint(k.Intn(14)))))}
		if k.Intn(2) == 0 {
			v.Proof = fmt.Sprintf("p%d", i)
		}
		b, _ := json.Marshal(v)
		return note{string(b), v}
	case "block":
		v := &client.BlockNotification{Hash: client.HexBytes(hs()), Height: client.NewHexInt(int64(i))}
		if k.Intn(2) == 0 {
			v.Indexes = [][]client.HexInt{{"0x0", "0x2"}, {client.HexInt(hs())}}
			v.Events = [][][]client.HexInt{{{"0x1"}, {"0x0", "0x5"}}, {{"0x7"}}}
		}
		b, _ := json.Marshal(v)
		return note{string(b), v}
	}
	v := &client.EventNotification{Hash: client.HexBytes(hs()), Height: client.NewHexInt(int64(i)), Index: "0x3"}
	if k.Intn(2) == 0 {
		v.Events = []client.HexInt{"0x0", client.HexInt(hs())}
	}
	b, _ := json.Marshal(v)
	return note{string(b), v}
}

// m01: the callback sees exactly the notifications of the node, in order, and
// the end of the connection is reported.
func m01(k *mon.Case) {
	kind := []string{"btp", "btp", "block", "event"}[k.Intn(4)]
	n := k.Intn(30)
	var notes []note
	for i := 0; i < n; i++ {
		notes = append(notes, mkNote(k, kind, i))
	}
	end := []string{"normal", "abnormal", "goingaway", "cut", "malformed", "close", "closeall", "refuse", "refuse-early", "nows", "cbfail"}[k.Intn(11)]
	if end == "cbfail" && (kind != "btp" || n == 0) {
		end = "cut"
	}
	at := 0
	if n > 0 {
		at = k.Intn(n)
	}
	style := make([]int, n)
	for i := range style {
		style[i] = k.Intn(5)
	}
	malformed := []string{"{", "nul", "[1]", "\"x\"", "", "{\"header\":1,\"hash\":1,\"height\":[]}"}[k.Intn(6)]
	k.Input("%s, %d notifications, end %s (at %d) %q", kind, n, end, at, malformed)
	k.Seen("%s %d %s %d %v", kind, n, end, at, style)
	var mu sync.Mutex
	var req map[string]interface{}
	var path string
	closed := make(chan error, 1)
	base := []string{"/api/v3", "/api/v3", "/http-gw/api/v3", "/v3/http"}[k.Intn(4)]
	handlers := make(chan struct{}, 64)
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		defer func() { handlers <- struct{}{} }()
		mu.Lock()
		path = r.URL.Path
		mu.Unlock()
		if end == "nows" {
			http.Error(w, "no", 503)
			return
		}
		conn, err := wsUp.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer conn.Close()
		if end == "refuse-early" {
			return
		}
		var q map[string]interface{}
		if conn.ReadJSON(&q) != nil {
			return
		}
		mu.Lock()
		req = q
		mu.Unlock()
		if end == "refuse" {
			conn.WriteJSON(map[string]interface{}{"code": 1 + k.I%5000, "message": "no"})
			conn.SetReadDeadline(time.Now().Add(20 * time.Second))
			if _, _, err := conn.ReadMessage(); os.IsTimeout(err) {
				k.Fail("left-open", "the monitor was refused and its connection is open 20s later")
			}
			return
		}
		conn.WriteJSON(map[string]interface{}{"code": 0})
		go func() {
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					closed <- err
					return
				}
			}
		}()
		for i, x := range notes {
			switch style[i] {
			case 0: // in several frames
				wr, err := conn.NextWriter(websocket.TextMessage)
				if err != nil {
					return
				}
				h := len(x.frame) / 2
				wr.Write([]byte(x.frame[:h]))
				wr.Write([]byte(x.frame[h:]))
				wr.Close()
			case 1:
				conn.WriteControl(websocket.PingMessage, []byte("hi"), time.Now().Add(time.Second))
				conn.WriteMessage(websocket.TextMessage, []byte(x.frame))
			case 2:
				conn.WriteMessage(websocket.TextMessage, []byte("  "+x.frame+"\n"))
			case 3:
				time.Sleep(time.Millisecond)
				fallthrough
			default:
				conn.WriteMessage(websocket.TextMessage, []byte(x.frame))
			}
		}
		switch end {
		case "normal":
			conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
		case "abnormal":
			conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseInternalServerErr, "oops"))
		case "goingaway":
			conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, ""))
		case "cut":
			conn.UnderlyingConn().Close()
			return
		case "malformed":
			conn.WriteMessage(websocket.TextMessage, []byte(malformed))
		}
		select {
		case <-closed:
		case <-time.After(20 * time.Second):
			k.Fail("left-open", "end %s: the connection is open 20s later", end)
		}
	})
	defer srv.close()
	c := client.NewClient("http://"+srv.ln.Addr().String()+base, quietLogger())
	var got []interface{}
	var errs []error
	inits := 0
	early := false
	stop := errors.New("stop")
	var conn0 *websocket.Conn
	push := func(conn *websocket.Conn, v interface{}) error {
		mu.Lock()
		defer mu.Unlock()
		conn0 = conn
		if inits == 0 && kind != "event" {
			early = true
		}
		got = append(got, v)
		if end == "cbfail" && len(got) == at+1 {
			return stop
		}
		return nil
	}
	scb := func(conn *websocket.Conn) { mu.Lock(); inits++; conn0 = conn; mu.Unlock() }
	ecb := func(conn *websocket.Conn, err error) { mu.Lock(); errs = append(errs, err); mu.Unlock() }
	done := make(chan error, 1)
	start := client.NewHexInt(int64(1 + k.I))
	go func() {
		switch kind {
		case "btp":
			done <- c.MonitorBTP(&client.BTPRequest{Height: start, NetworkID: "0x5", ProofFlag: "0x1"}, func(cn *websocket.Conn, v *client.BTPNotification) error { return push(cn, v) }, scb, ecb)
		case "block":
			done <- c.MonitorBlock(&client.BlockRequest{Height: start}, func(cn *websocket.Conn, v *client.BlockNotification) error { return push(cn, v) }, scb, ecb)
		case "event":
			ev := &client.EventRequest{Height: start}
			ev.Signature = "Message(str,int,bytes)"
			done <- c.MonitorEvent(ev, func(cn *websocket.Conn, v *client.EventNotification) error { return push(cn, v) }, ecb)
		}
	}()
	count := func() (int, int) { mu.Lock(); defer mu.Unlock(); return len(got), inits }
	if end == "close" || end == "closeall" {
		for i := 0; i < 2000; i++ {
			g, in := count()
			if g >= n && (in > 0 || kind == "event" && (n > 0 || i > 20)) {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		mu.Lock()
		cn := conn0
		mu.Unlock()
		if end == "close" && cn != nil {
			c.CloseMonitor(cn)
		} else {
			c.CloseAllMonitor()
		}
	}
	var err error
	select {
	case err = <-done:
	case <-time.After(15 * time.Second):
		k.Fail("hang", "the monitor did not return after %q", end)
		return
	}
	select { // the node sees the end as well
	case <-handlers:
	case <-time.After(30 * time.Second):
		k.Fail("left-open", "end %s: the node still serves the monitor", end)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if path != base+"/"+kind {
		k.Fail("path", "%s", path)
	}
	refused := end == "refuse" || end == "refuse-early" || end == "nows"
	if refused {
		if err == nil || len(got) != 0 || inits != 0 {
			k.Fail("refused", "err %v, %d notifications, %d inits", err, len(got), inits)
		}
		return
	}
	if s, _ := req["height"].(string); s != string(start) || kind == "btp" && (req["networkID"] != "0x5" || req["proofFlag"] != "0x1") || kind == "event" && req["event"] != "Message(str,int,bytes)" {
		k.Fail("request", "%v", req)
	}
	if kind != "event" && inits != 1 {
		k.Fail("init", "%d inits", inits)
	}
	if early {
		k.Fail("init", "notification before the init")
	}
	wantN := n
	if end == "cbfail" {
		wantN = at + 1
	}
	if end == "cut" && len(got) < wantN { // what was under way may be lost
		wantN = len(got)
	}
	if len(got) != wantN {
		k.Fail("count", "%d notifications instead of %d, end %s", len(got), wantN, end)
		return
	}
	k.Count("notifications", int64(wantN))
	for i := range got {
		if !reflect.DeepEqual(got[i], notes[i].want) {
			k.Fail("content", "notification %d: %+v instead of %+v", i, got[i], notes[i].want)
			return
		}
	}
	switch end {
	case "abnormal", "goingaway", "cut", "malformed":
		if err == nil || len(errs) != 1 || errs[0] == nil {
			k.Fail("end-unreported", "end %s: returned %v, reported %v", end, err, errs)
		}
	case "normal":
		if err == nil {
			k.Fail("end-unreported", "the node closed the connection and the monitor returned no error")
		}
	}
	k.Count("end_"+end, 1)
}

// m01many: several monitors of one client, closed one by one while the
// others go on.
func m01many(k *mon.Case) {
	m := 2 + k.Intn(6)
	k.Input("%d monitors", m)
	k.Seen("%d %d", m, k.I)
	var mu sync.Mutex
	conns := 0
	quit := make(chan struct{})
	defer close(quit)
	srv := newWeb(func(w http.ResponseWriter, r *http.Request) {
		conn, err := wsUp.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer conn.Close()
		var q map[string]interface{}
		if conn.ReadJSON(&q) != nil {
			return
		}
		mu.Lock()
		conns++
		mu.Unlock()
		conn.WriteJSON(map[string]interface{}{"code": 0})
		gone := make(chan struct{})
		go func() {
			defer close(gone)
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					return
				}
			}
		}()
		for i := 0; ; i++ {
			if conn.WriteJSON(map[string]interface{}{"header": fmt.Sprintf("%v:%d", q["networkID"], i)}) != nil {
				break
			}
			select {
			case <-gone:
			case <-quit:
			case <-time.After(200 * time.Microsecond):
				continue
			}
			break
		}
		mu.Lock()
		conns--
		mu.Unlock()
	})
	defer srv.close()
	c := client.NewClient(srv.url(), quietLogger())
	type state struct {
		n    int
		bad  string
		conn *websocket.Conn
		errs int
		done chan error
	}
	st := make([]*state, m)
	for i := range st {
		st[i] = &state{done: make(chan error, 1)}
		go func(i int) {
			s := st[i]
			s.done <- c.MonitorBTP(&client.BTPRequest{Height: "0x1", NetworkID: client.NewHexInt(int64(i))}, func(cn *websocket.Conn, v *client.BTPNotification) error {
				mu.Lock()
				defer mu.Unlock()
				if want := fmt.Sprintf("0x%x:%d", i, s.n); v.Header != want && s.bad == "" {
					s.bad = fmt.Sprintf("%s instead of %s", v.Header, want)
				}
				s.n++
				return nil
			}, func(cn *websocket.Conn) { mu.Lock(); s.conn = cn; mu.Unlock() }, func(*websocket.Conn, error) { mu.Lock(); s.errs++; mu.Unlock() })
		}(i)
	}
	until := func(what string, f func() bool) bool {
		for i := 0; i < 3000; i++ {
			mu.Lock()
			ok := f()
			mu.Unlock()
			if ok {
				return true
			}
			time.Sleep(5 * time.Millisecond)
		}
		k.Fail("many-"+strings.Fields(what)[0], "%s", what)
		return false
	}
	if !until("started", func() bool {
		for _, s := range st {
			if s.n < 3 {
				return false
			}
		}
		return true
	}) {
		return
	}
	ended := func(i int) bool {
		select {
		case <-st[i].done:
			return true
		case <-time.After(15 * time.Second):
			k.Fail("many-close", "monitor %d was closed and does not return", i)
			return false
		}
	}
	order := k.Perm(m)
	alone := k.Intn(m)
	for x, i := range order[:alone] {
		mu.Lock()
		cn := st[i].conn
		mu.Unlock()
		c.CloseMonitor(cn)
		if !ended(i) {
			return
		}
		// the others go on
		mu.Lock()
		base := make([]int, m)
		for j, s := range st {
			base[j] = s.n
		}
		mu.Unlock()
		if !until(fmt.Sprintf("stalled after closing monitor %d", i), func() bool {
			for _, j := range order[x+1:] {
				if st[j].n <= base[j] {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
	c.CloseAllMonitor()
	for _, i := range order[alone:] {
		if !ended(i) {
			return
		}
	}
	until("leaked connections", func() bool { return conns == 0 })
	mu.Lock()
	defer mu.Unlock()
	for i, s := range st {
		k.Count("notifications", int64(s.n))
		if s.bad != "" {
			k.Fail("many-content", "monitor %d: %s", i, s.bad)
		}
	}
}
