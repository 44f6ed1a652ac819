package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/labstack/echo/v4"

	"github.com/icon-project/btp/common"

	"verifharness/internal/mon"
)

func init() { props["W01"] = w01 }

func w01(c *mon.Ctx) {
	quiet()
	// a place with a long name: sockets have to be reached by their short one
	dir := filepath.Join(os.Getenv("VERIF_WORK"), strings.Repeat("long-", 30), "place")
	if os.Getenv("VERIF_WORK") == "" {
		d, err := os.MkdirTemp("", "w01")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		dir = filepath.Join(d, strings.Repeat("long-", 30), "place")
	}
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	c.RunP("calls", c.N(160, 4000), 8, w01calls)
	c.RunP("parallel", c.N(12, 300), 2, w01parallel)
	c.RunP("streams", c.N(160, 3000), 8, w01streams)
	c.RunP("servers", c.N(24, 400), 4, w01servers)
	c.RunP("parts", c.N(3000, 60000), 8, w01parts)
}

type wReq struct {
	method, path, query, ctype string
	body                       []byte
	file                       []byte
	fileName, fileField, js    string
}

// wAns is what the server is told to answer.
type wAns struct {
	status int
	body   []byte
	cut    bool
	drop   bool
}

type wSrv struct {
	s       *common.HttpServer
	addr    string // as given to the server
	network string
	at      string // host:port or path of the socket
	done    chan error
	mu      sync.Mutex
	got     []*wReq
	ans     map[string]wAns
	items   map[string]func(w http.ResponseWriter, r *http.Request)
}

var wNo int64

// place gives an address nobody uses.
func wPlace(r *rand.Rand) (network, at string) {
	n := atomic.AddInt64(&wNo, 1)
	if r.Intn(2) == 0 {
		at = fmt.Sprintf("s%d.sock", n)
		if r.Intn(2) == 0 {
			at, _ = filepath.Abs(at)
		}
		return "unix", at
	}
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.%d.%d:0", 1+n/250%250, 1+n%250))
	if err != nil {
		panic(err)
	}
	at = l.Addr().String()
	l.Close()
	return "tcp", at
}

func wServe(k *mon.Case, own bool) *wSrv {
	w := &wSrv{done: make(chan error, 1), ans: map[string]wAns{}, items: map[string]func(http.ResponseWriter, *http.Request){}}
	w.network, w.at = wPlace(k.Rand)
	w.addr = w.network + "://" + w.at
	if w.network == "tcp" && k.Intn(3) == 0 {
		w.addr = w.at
	}
	if w.network == "unix" && k.Intn(2) == 0 {
		// what another one left behind
		if err := os.WriteFile(w.at, []byte("left"), 0600); err != nil {
			panic(err)
		}
	}
	var e *echo.Echo
	if own {
		e = echo.New()
	}
	w.s = common.NewHttpServer(w.addr, e)
	if w.s.Echo() == nil || own && w.s.Echo() != e {
		k.Fail("echo", "another router")
	}
	if a := w.s.Address(); a != w.network+"://"+w.at {
		k.Fail("address", "%s instead of %s", a, w.network+"://"+w.at)
	}
	w.s.Echo().Any("/*", func(c echo.Context) error {
		w.handle(c.Response(), c.Request())
		return nil
	})
	return w
}

// up starts it, and says if it can be used.
func (w *wSrv) up(k *mon.Case) bool {
	err := w.start()
	if err != nil && w.network == "tcp" && strings.Contains(err.Error(), "address already in use") {
		k.Count("places taken by others", 1)
		return false
	}
	if err != nil {
		k.Fail("start", "%s: %v", w.addr, err)
	}
	return err == nil
}

func (w *wSrv) start() error {
	go func() { w.done <- w.s.Start() }()
	for i := 0; i < 2400; i++ {
		path := w.at
		if w.network == "unix" {
			path = filepath.Base(w.at)
		}
		c, err := net.Dial(w.network, path)
		if err == nil {
			c.Close()
			return nil
		}
		select {
		case err := <-w.done:
			w.done <- err
			return err
		case <-time.After(25 * time.Millisecond):
		}
	}
	return errors.New("not reachable in 60 s")
}

func (w *wSrv) handle(rw http.ResponseWriter, r *http.Request) {
	q := &wReq{method: r.Method, path: r.URL.Path, query: r.URL.RawQuery, ctype: r.Header.Get("Content-Type")}
	if strings.HasPrefix(q.ctype, "multipart/form-data") {
		mr, err := r.MultipartReader()
		for err == nil {
			p, e := mr.NextPart()
			if e != nil {
				break
			}
			b, _ := io.ReadAll(p)
			if p.FileName() != "" {
				q.file, q.fileName, q.fileField = b, p.FileName(), p.FormName()
			} else {
				q.js += p.FormName() + "=" + strings.TrimSpace(string(b))
			}
		}
	} else {
		q.body, _ = io.ReadAll(r.Body)
	}
	w.mu.Lock()
	w.got = append(w.got, q)
	key := r.URL.Path
	if i := strings.LastIndex(key, "/"); i >= 0 {
		key = key[i+1:]
	}
	a, ok := w.ans[key]
	f := w.items[key]
	w.mu.Unlock()
	if f != nil {
		f(rw, r)
		return
	}
	if !ok {
		a = wAns{status: 200, body: []byte("\"" + r.URL.Path + "\"")}
	}
	if a.drop {
		if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
			c.Close()
		}
		return
	}
	if a.cut {
		rw.Header().Set("Content-Length", fmt.Sprint(len(a.body)+10))
	}
	rw.WriteHeader(a.status)
	rw.Write(a.body)
}

func (w *wSrv) taken() []*wReq {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.got
	w.got = nil
	return l
}

func (w *wSrv) client(r *rand.Rand, ctx string) *common.HttpClient {
	if w.network == "unix" {
		return common.NewHttpClient("unix://"+w.at, ctx)
	}
	return common.NewHttpClient([]string{"tcp://", "http://", ""}[r.Intn(3)]+w.at, ctx)
}

func (w *wSrv) stop(k *mon.Case) {
	err := w.s.Stop()
	if err != nil && !errors.Is(err, context.DeadlineExceeded) { // a connection without a request may hold it up
		k.Fail("stop", "%v", err)
	}
	select {
	case err := <-w.done:
		if err != http.ErrServerClosed {
			k.Fail("stop", "serving ended with %v", err)
		}
	case <-time.After(20 * time.Second):
		k.Fail("stop", "serving goes on")
	}
}

type wVal struct {
	A int               `json:"a"`
	B string            `json:"b"`
	C []int             `json:"c"`
	D map[string]string `json:"d"`
}

func wRand(r *rand.Rand) wVal {
	v := wVal{A: r.Intn(1 << 40), B: wText(r), C: []int{}, D: map[string]string{}}
	for i := r.Intn(5); i > 0; i-- {
		v.C = append(v.C, r.Intn(1000)-500)
		v.D[wText(r)] = wText(r)
	}
	return v
}

func wText(r *rand.Rand) string {
	b := []rune{}
	for i := r.Intn(12); i > 0; i-- {
		b = append(b, []rune("aZ0 &=?#/+%\"\\<>é漢\n")[r.Intn(18)])
	}
	return string(b)
}

func w01calls(k *mon.Case) {
	w := wServe(k, k.Intn(2) == 0)
	if !w.up(k) {
		return
	}
	defer w.stop(k)
	ctx := []string{"", "/api", "/api/v3"}[k.Intn(3)]
	c := w.client(k.Rand, ctx)
	for n := 0; n < 12; n++ {
		name := fmt.Sprintf("p%d", n)
		reqUrl := "/x/" + name
		req := wRand(k.Rand)
		var reqPtr interface{} = &req
		wantBody, _ := json.Marshal(&req)
		ans := wAns{status: 200}
		val := wRand(k.Rand)
		ans.body, _ = json.Marshal(&val)
		kind := k.Intn(5) // of the answer wanted
		good := true
		switch k.Intn(8) {
		case 0:
			ans.status = []int{201, 202, 400, 401, 403, 404, 409, 500, 502, 503}[k.Intn(10)]
			good = false
			if k.Intn(2) == 0 {
				ans.body = []byte([]string{"", " \n", "\nno way \n", "\x00\xff", strings.Repeat("long ", 5000)}[k.Intn(5)])
			}
		case 1:
			ans.cut = true
			good = kind == 4
		case 2:
			if kind == 1 || kind == 2 {
				ans.body = []byte([]string{"", "{", "nothing", "[1]", `{"a":"x","b":3}`}[k.Intn(6-kind)])
				good = false
			}
		}
		if ans.cut && kind != 4 && kind != 0 && kind != 3 {
			// the decoder is content with a complete value
			ans.body = ans.body[:len(ans.body)-1]
		}
		w.mu.Lock()
		w.ans[name] = ans
		w.mu.Unlock()
		var s string
		var v wVal
		var m map[string]interface{}
		var respPtr interface{}
		switch kind {
		case 0, 3:
			respPtr = &s
		case 1:
			respPtr = &v
		case 2:
			respPtr = &m
		}
		var resp *http.Response
		var err error
		method, query := "POST", ""
		var file []byte
		var fileName, field string
		op := k.Intn(8)
		refuse := false
		if (op == 1 || op == 2 || op == 5) && k.Intn(8) == 0 {
			ans.drop, good = true, false
			w.mu.Lock()
			w.ans[name] = ans
			w.mu.Unlock()
		}
		switch op {
		case 0:
			method, wantBody = "GET", nil
			ps := []*url.Values{}
			want := url.Values{}
			for i := k.Intn(3); i > 0; i-- {
				p := url.Values{}
				for j := k.Intn(3); j > 0; j-- {
					a, b := "k"+wText(k.Rand), wText(k.Rand)
					p.Add(a, b)
				}
				ps = append(ps, &p)
			}
			for _, p := range ps {
				for a, l := range *p {
					want[a] = append(want[a], l...)
				}
			}
			query = want.Encode()
			resp, err = c.Get(reqUrl, respPtr, ps...)
		case 1:
			wantBody = nil
			resp, err = c.Post(reqUrl, respPtr)
		case 2:
			resp, err = c.PostWithJson(reqUrl, reqPtr, respPtr)
		case 3:
			method, wantBody = "DELETE", nil
			resp, err = c.Delete(reqUrl, respPtr)
		case 4:
			method = []string{"PUT", "POST", "PATCH"}[k.Intn(3)]
			if k.Intn(3) == 0 {
				reqPtr, wantBody = nil, nil
			}
			resp, err = c.Do(method, reqUrl, reqPtr, respPtr)
		case 5:
			file = make([]byte, []int{0, 1, 1000, 70000, 300000}[k.Intn(5)])
			k.Read(file)
			field, fileName = "f"+fmt.Sprint(k.Intn(9)), "blob"
			resp, err = c.PostWithReader(reqUrl, reqPtr, field, bytes.NewReader(file), respPtr)
		case 6:
			file = make([]byte, []int{0, 1, 1000, 70000, 300000}[k.Intn(5)])
			k.Read(file)
			field, fileName = "f"+fmt.Sprint(k.Intn(9)), fmt.Sprintf("up %d.zip", atomic.AddInt64(&wNo, 1))
			if err := os.MkdirAll("up", 0700); err != nil {
				panic(err)
			}
			path := filepath.Join("up", fileName)
			if k.Intn(5) == 0 {
				refuse = true
			} else if err := os.WriteFile(path, file, 0600); err != nil {
				panic(err)
			}
			resp, err = c.PostWithFile(reqUrl, reqPtr, field, path, respPtr)
			os.Remove(path)
		case 7:
			refuse = true
			var bad interface{} = map[string]interface{}{"x": make(chan int)}
			if k.Intn(2) == 0 {
				resp, err = c.PostWithJson(reqUrl, bad, respPtr)
			} else {
				resp, err = c.PostWithReader(reqUrl, bad, "f", strings.NewReader("x"), respPtr)
			}
		}
		what := fmt.Sprintf("%s op %d kind %d status %d cut %v %.60q", w.addr, op, kind, ans.status, ans.cut, ans.body)
		k.Input("%s", what)
		k.Seen("%d %d %d %v %s %d", op, kind, ans.status, ans.cut, w.network, len(file))
		if resp != nil && respPtr == nil {
			resp.Body.Close()
		}
		reqs := w.taken()
		if refuse {
			if err == nil || len(reqs) != 0 {
				k.Fail("sent", "%s: %v, %d requests", what, err, len(reqs))
			}
			k.Count("refused", 1)
			continue
		}
		if len(reqs) != 1 {
			k.Fail("requests", "%s: %d requests, %v", what, len(reqs), err)
			continue
		}
		q := reqs[0]
		k.Count("requests", 1)
		if q.method != method || q.path != ctx+reqUrl {
			k.Fail("request", "%s: %s %s arrived instead of %s %s", what, q.method, q.path, method, ctx+reqUrl)
		}
		if gq, e := url.ParseQuery(q.query); e != nil || gq.Encode() != query {
			k.Fail("parameters", "%s: %q arrived instead of %q", what, q.query, query)
		}
		if op == 5 || op == 6 {
			if !bytes.Equal(q.file, file) || q.fileName != fileName || q.fileField != field || q.js != "json="+string(wantBody) {
				k.Fail("upload", "%s: %s %s, %d bytes, %s arrived instead of %s %s, %d bytes, %s", what, q.fileField, q.fileName, len(q.file), q.js, field, fileName, len(file), wantBody)
			}
		} else if !bytes.Equal(q.body, wantBody) || q.ctype != "application/json" {
			k.Fail("request body", "%s: %s (%s) arrived instead of %s", what, q.body, q.ctype, wantBody)
		}
		if ans.drop {
			if _, ok := err.(*common.HttpError); err == nil || ok {
				k.Fail("answer", "%s: %v without an answer", what, err)
			}
			k.Count("no answers", 1)
			continue
		}
		if ans.status != 200 {
			he, ok := err.(*common.HttpError)
			if !ok {
				k.Fail("status", "%s gave %v", what, err)
			} else if he.StatusCode() != ans.status || !ans.cut && !bytes.Equal(he.Response(), ans.body) || !strings.Contains(he.Error(), fmt.Sprint(ans.status)) {
				k.Fail("status", "%s gave %d %q %s", what, he.StatusCode(), he.Response(), he)
			}
			k.Count("errors", 1)
			if s != "" || m != nil || !reflect.DeepEqual(v, wVal{}) {
				k.Fail("status", "%s was read as an answer", what)
			}
			continue
		}
		if (err == nil) != good {
			k.Fail("answer", "%s: %v", what, err)
			continue
		}
		if !good {
			k.Count("bad answers", 1)
			continue
		}
		switch kind {
		case 0, 3:
			if s != string(ans.body) {
				k.Fail("answer", "%s: %q", what, s)
			}
		case 1:
			if !reflect.DeepEqual(v, val) {
				k.Fail("answer", "%s: %+v", what, v)
			}
		case 2:
			b, _ := json.Marshal(m)
			var v2 wVal
			json.Unmarshal(b, &v2)
			if !reflect.DeepEqual(v2, val) {
				k.Fail("answer", "%s: %+v", what, v2)
			}
		}
		k.Count("answers", 1)
	}
}

func w01parallel(k *mon.Case) {
	w := wServe(k, false)
	if !w.up(k) {
		return
	}
	defer w.stop(k)
	c := w.client(k.Rand, "")
	k.Input("%s", w.addr)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				u := fmt.Sprintf("/g%d/i%d", g, i)
				var s string
				_, err := c.PostWithJson(u, map[string]int{"g": g, "i": i}, &s)
				if err != nil || s != "\""+u+"\"" {
					k.Fail("parallel", "%s was answered %q, %v", u, s, err)
				}
				k.Count("parallel", 1)
			}
		}(g)
	}
	wg.Wait()
	seen := map[string]int{}
	for _, q := range w.taken() {
		seen[q.path]++
		var v map[string]int
		json.Unmarshal(q.body, &v)
		if q.path != fmt.Sprintf("/g%d/i%d", v["g"], v["i"]) {
			k.Fail("parallel", "%s arrived with %s", q.path, q.body)
		}
	}
	for p, n := range seen {
		if n != 1 {
			k.Fail("parallel", "%s arrived %d times", p, n)
		}
	}
	if len(seen) != 160 {
		k.Fail("parallel", "%d requests of 160 arrived", len(seen))
	}
	k.Seen("%s %d", w.network, k.I)
}

var errStop = errors.New("enough")

func w01streams(k *mon.Case) {
	w := wServe(k, false)
	if !w.up(k) {
		return
	}
	c := w.client(k.Rand, "")
	n := []int{0, 1, 2, 5, 30}[k.Intn(5)]
	vals := make([]wVal, n)
	var all []byte
	for i := range vals {
		vals[i] = wRand(k.Rand)
		vals[i].D = map[string]string{"only": fmt.Sprint(i)}
		b, _ := json.Marshal(&vals[i])
		all = append(append(all, b...), []string{"\n", "", " "}[k.Intn(3)]...)
	}
	end := k.Intn(5) // 0 ends, 1 garbage, 2 the handler stops, 3 cancelled, 4 cut
	if end == 1 {
		all = append(all, "}{"...)
	}
	if end == 4 && n == 0 {
		end = 0
	}
	stopAt, cuts := 0, k.Intn(4)
	if n > 0 {
		stopAt = k.Intn(n)
	}
	seed := k.Int63()
	release := make(chan bool)
	w.items["s"] = func(rw http.ResponseWriter, r *http.Request) {
		rr := rand.New(rand.NewSource(seed))
		rw.WriteHeader(200)
		f := rw.(http.Flusher)
		b := all
		if end == 4 {
			b = b[:len(strings.TrimRight(string(b), " \n"))-1]
		}
		for len(b) > 0 {
			l := len(b)
			if cuts > 0 {
				l = 1 + rr.Intn(min2(len(b), 40*cuts*cuts))
			}
			if _, err := rw.Write(b[:l]); err != nil {
				return
			}
			f.Flush()
			b = b[l:]
			if cuts > 1 && rr.Intn(4) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		if end == 3 {
			f.Flush()
			select {
			case <-release:
			case <-r.Context().Done():
			}
		}
	}
	req := wRand(k.Rand)
	p := &url.Values{}
	p.Set("from", "é&=1")
	cancel := make(chan bool)
	var got int32
	slow := k.Intn(2) == 0
	v := &wVal{}
	k.Input("%s %d items, end %d, cuts %d, stop at %d, slow %v", w.addr, n, end, cuts, stopAt, slow)
	if end == 3 {
		go func() {
			for i := 0; i < 10000 && int(atomic.LoadInt32(&got)) < n; i++ {
				time.Sleep(time.Millisecond)
			}
			close(cancel)
		}()
	}
	ret := make(chan bool)
	go func() {
		select {
		case <-ret:
		case <-time.After(60 * time.Second):
			k.Fail("stream hangs", "%d of %d items, end %d", atomic.LoadInt32(&got), n, end)
			close(release)
		}
	}()
	resp, err := c.Stream("/s", &req, v, func(r interface{}) error {
		i := int(atomic.LoadInt32(&got))
		x, ok := r.(*wVal)
		if !ok || i >= n {
			k.Fail("stream", "%T %v as item %d of %d", r, r, i, n)
			return errStop
		}
		for j := 0; j < 2; j++ {
			// it stays the same until the handler is done
			if !reflect.DeepEqual(*x, vals[i]) {
				k.Fail("stream", "item %d is %+v instead of %+v (look %d)", i, *x, vals[i], j)
				return errStop
			}
			if slow {
				time.Sleep(2 * time.Millisecond)
			}
		}
		k.Count("items", 1)
		atomic.AddInt32(&got, 1)
		if end == 2 && i == stopAt {
			return errStop
		}
		return nil
	}, cancel, p)
	close(ret)
	if k.Failed() {
		return
	}
	g := int(got)
	switch {
	case end == 0 && (g != n || err != io.EOF),
		end == 1 && (g != n || err == nil || err == io.EOF),
		end == 2 && n > 0 && (g != stopAt+1 || err != errStop),
		end == 2 && n == 0 && err != io.EOF,
		end == 3 && (g != n || err != nil),
		end == 4 && (g != n-1 || err == nil || err == io.EOF):
		k.Fail("stream end", "%d of %d items, %v", g, n, err)
	}
	if resp == nil || resp.StatusCode != 200 {
		k.Fail("stream", "no response")
	}
	want, _ := json.Marshal(&req)
	if q := w.taken(); len(q) != 1 || q[0].method != "GET" || !bytes.Equal(q[0].body, want) || q[0].query != p.Encode() {
		k.Fail("stream request", "%+v", q)
	}
	w.mu.Lock()
	w.ans["bad"] = wAns{status: 404, body: []byte("no")}
	w.mu.Unlock()
	_, err = c.Stream("/bad", nil, v, func(interface{}) error { k.Fail("stream", "an error was handed over"); return nil }, nil)
	if he, ok := err.(*common.HttpError); !ok || he.StatusCode() != 404 || string(he.Response()) != "no" {
		k.Fail("stream", "%v", err)
	}
	k.Count("streams", 1)
	k.Seen("%d %d %d %d %v", n, end, cuts, stopAt, slow)
	w.stop(k)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// w01servers: a server that is stopped answers what it has begun, and no more.
func w01servers(k *mon.Case) {
	w := wServe(k, false)
	if !w.up(k) {
		return
	}
	c := w.client(k.Rand, "")
	if w.network == "tcp" {
		var s string
		if _, err := c.Get("/up", &s); err != nil {
			k.Fail("start", "%v", err)
		}
		if a := w.s.ListenAddress(); a != w.at {
			k.Fail("address", "listens at %s instead of %s", a, w.at)
		}
		// the same place cannot be taken twice
		o := common.NewHttpServer(w.addr, nil)
		ch := make(chan error, 1)
		go func() { ch <- o.Start() }()
		select {
		case err := <-ch:
			if err == nil {
				k.Fail("start twice", "ended without an error")
			}
		case <-time.After(20 * time.Second):
			k.Fail("start twice", "it serves")
		}
	}
	in, out := make(chan bool), make(chan error, 1)
	late := time.Duration(k.Intn(40)) * time.Millisecond
	w.items["slow"] = func(rw http.ResponseWriter, r *http.Request) {
		close(in)
		time.Sleep(50 * time.Millisecond)
		rw.Write([]byte("whole"))
	}
	go func() {
		var s string
		_, err := c.Get("/slow", &s)
		if err == nil && s != "whole" {
			err = fmt.Errorf("answered %q", s)
		}
		out <- err
	}()
	select {
	case <-in:
	case err := <-out:
		k.Fail("request", "%v", err)
		return
	}
	time.Sleep(late)
	w.stop(k)
	if err := <-out; err != nil {
		k.Fail("stop", "a request under way got %v", err)
	}
	if _, err := c.Get("/after", nil); err == nil {
		k.Fail("stop", "it still answers")
	}
	if w.network == "tcp" {
		if _, err := net.Dial("tcp", w.at); err == nil || !common.IsConnectRefusedError(err) || common.IsBrokenPipeError(err) {
			k.Fail("refused", "%v", err)
		}
	}
	k.Input("%s", w.addr)
	k.Seen("%s %v", w.network, late)
	k.Count("servers", 1)
}

// w01parts: parameters, content types, templates and middleware.
func w01parts(k *mon.Case) {
	switch k.Intn(4) {
	case 0:
		types := []string{"application/json", "text/plain", "application/zip", "multipart/form-data"}
		want := types[k.Intn(4)]
		has := false
		l := []string{}
		for i := k.Intn(4); i > 0; i-- {
			t := types[k.Intn(4)]
			has = has || t == want
			if k.Intn(2) == 0 {
				t = strings.ToUpper(t[:1]) + t[1:]
			}
			l = append(l, []string{"", " "}[k.Intn(2)]+t+[]string{"", "; charset=utf-8", ";boundary=x"}[k.Intn(3)])
		}
		h := http.Header{}
		h.Set("Content-Type", strings.Join(l, ","))
		k.Input("%v in %v", want, l)
		if common.HasContentType(h, want) != has {
			k.Fail("content type", "%s in %v: %v", want, l, !has)
		}
		k.Seen("%v %v", want, l)
	case 1:
		v := map[string]interface{}{"a": wText(k.Rand), "b": wRand(k.Rand)}
		f := []string{"{{.a}}", "{{json .b}}", "{{json .}}", "{{.c}}", "{{", "x{{.a}}y{{.b.B}}"}
		i := k.Intn(len(f))
		rec := &wRec{h: http.Header{}}
		err := common.DefaultJsonTemplate.Response(f[i], v, echo.NewResponse(rec, echo.New()))
		b, _ := json.Marshal(v["b"])
		all, _ := json.Marshal(v)
		want := []string{v["a"].(string), string(b), string(all), "", "", "x" + v["a"].(string) + "y" + v["b"].(wVal).B}[i]
		k.Input("%s", f[i])
		if bad := i == 3 || i == 4; (err != nil) != bad {
			k.Fail("template", "%s: %v", f[i], err)
		} else if !bad && (rec.b.String() != want || rec.status != 200 && rec.status != 0) {
			k.Fail("template", "%s wrote %q (%d) instead of %q", f[i], rec.b.String(), rec.status, want)
		}
		k.Seen("%d %v", i, v["a"])
	case 2:
		e := echo.New()
		var l []string
		ro := k.Intn(2) == 0
		e.GET("/x", func(c echo.Context) error { l = append(l, "x"); return c.String(200, "ok") }, common.Unauthorized(ro), common.NoneMiddlewareFunc,
			common.WrapFunc(func() { l = append(l, "f") }, func() { l = append(l, "g") }))
		e.GET("/h", common.WrapHandler(http.HandlerFunc(func(http.ResponseWriter, *http.Request) { l = append(l, "1") }),
			http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) { l = append(l, "2"); rw.Write([]byte(r.URL.Path)) })))
		rec := &wRec{h: http.Header{}}
		r, _ := http.NewRequest("GET", "/x", nil)
		e.ServeHTTP(rec, r)
		k.Input("read only %v", ro)
		if ro && (rec.status != 401 || len(l) != 0) || !ro && (rec.status != 200 || strings.Join(l, "") != "fgx" || rec.b.String() != "ok") {
			k.Fail("middleware", "read only %v: %d %s %v", ro, rec.status, rec.b.String(), l)
		}
		l = nil
		rec = &wRec{h: http.Header{}}
		r, _ = http.NewRequest("GET", "/h", nil)
		e.ServeHTTP(rec, r)
		if strings.Join(l, "") != "12" || rec.b.String() != "/h" {
			k.Fail("middleware", "%v %s", l, rec.b.String())
		}
		k.Seen("%v", ro)
	case 3:
		want := url.Values{}
		ps := []*url.Values{}
		for i := k.Intn(4); i > 0; i-- {
			p := url.Values{}
			for j := 1 + k.Intn(3); j > 0; j-- {
				a, b := "k"+wText(k.Rand), wText(k.Rand)
				p.Add(a, b)
			}
			for a, l := range p {
				want[a] = append(want[a], l...)
			}
			ps = append(ps, &p)
		}
		s := common.UrlWithParams("/base", ps...)
		u, err := url.Parse(s)
		k.Input("%s", s)
		if err != nil || u.Path != "/base" || u.Query().Encode() != want.Encode() || u.Fragment != "" {
			k.Fail("parameters", "%q: %v instead of %v", s, err, want)
		}
		k.Seen("%s", s)
	}
}

type wRec struct {
	h      http.Header
	b      bytes.Buffer
	status int
}

func (r *wRec) Header() http.Header { return r.h }
func (r *wRec) WriteHeader(s int) {
	if r.status == 0 {
		r.status = s
	}
}
func (r *wRec) Write(b []byte) (int, error) { return r.b.Write(b) }
