package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/btp/common/log"

	"verifharness/internal/mon"
)

func init() { props["L01"] = l01 }

var levelsDown = []log.Level{log.PanicLevel, log.FatalLevel, log.ErrorLevel, log.WarnLevel, log.InfoLevel, log.DebugLevel, log.TraceLevel}

const levelLetters = "PFEWIDT"

func l01(c *mon.Ctx) {
	c.Rule("lines logged by several goroutines through every function of the logger, compared with what console, file and forwarders received; a run is distinct by its settings and lines")
	c.Run("sinks", c.N(2500, 40000), l01sinks)
	c.Run("rotation", c.N(8, 80), l01rotation)
	c.Run("levels", 1, l01levels)
	c.Run("forwarder-config", c.N(200, 3000), l01forwarderConfig)
}

type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *safeBuf) Write(b []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(b) }
func (s *safeBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

// consoleLogger makes a logger whose console is a file.
func consoleLogger(path string) (log.Logger, *os.File, error) {
	f, err := os.Create(path)
	if err != nil {
		return nil, nil, err
	}
	old := os.Stderr
	os.Stderr = f
	l := log.New()
	os.Stderr = old
	return l, f, nil
}

type record struct {
	msg, level, module, tag string
	fields                  map[string]interface{}
}

// collector is a log server of one vendor.
type collector struct {
	ln   net.Listener
	mu   sync.Mutex
	recs []record
	err  string
}

func newCollector(vendor string) (*collector, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	c := &collector{ln: ln}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go c.serve(vendor, conn)
		}
	}()
	return c, nil
}

func (c *collector) add(r record) { c.mu.Lock(); c.recs = append(c.recs, r); c.mu.Unlock() }

func (c *collector) serve(vendor string, conn net.Conn) {
	defer conn.Close()
	if vendor == "logstash" {
		d := json.NewDecoder(bufio.NewReader(conn))
		for {
			m := map[string]interface{}{}
			if err := d.Decode(&m); err != nil {
				if err != io.EOF && !strings.Contains(err.Error(), "closed") && !strings.Contains(err.Error(), "reset") {
					c.mu.Lock()
					c.err = err.Error()
					c.mu.Unlock()
				}
				return
			}
			c.add(record{fmt.Sprint(m["message"]), fmt.Sprint(m["level"]), fmt.Sprint(m["module"]), fmt.Sprint(m["type"]), m})
		}
	}
	r := bufio.NewReader(conn)
	for {
		x, err := unpack(r)
		if err != nil {
			return
		}
		v, ok := x.([]interface{})
		if !ok || len(v) < 3 {
			c.mu.Lock()
			c.err = fmt.Sprint(x)
			c.mu.Unlock()
			continue
		}
		m, _ := v[2].(map[string]interface{})
		c.add(record{fmt.Sprint(m["message"]), fmt.Sprint(m["level"]), fmt.Sprint(m["module"]), fmt.Sprint(v[0]), m})
	}
}

type logLine struct {
	id     string
	level  log.Level
	module string
	wallet string
	chain  string
	prefix string
	extra  string
	text   string
	piped  bool
	g, n   int
}

func upTo(l log.Level) string { return l.String() }

func l01sinks(k *mon.Case) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "log")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	l, cf, err := consoleLogger(filepath.Join(dir, "console"))
	if err != nil {
		panic(err)
	}
	defer cf.Close()
	before := log.GlobalLogger()
	defer log.SetGlobalLogger(before)
	var base log.Logger = l
	if k.Intn(3) == 0 {
		base = l.WithFields(log.Fields{log.FieldKeyWallet: "feedcafe"})
	}
	global := log.Fields{}
	if base != l {
		global[log.FieldKeyWallet] = "feedcafe"
	}
	log.SetGlobalLogger(base)
	lv, cl := levelsDown[2+k.Intn(5)], levelsDown[2+k.Intn(5)]
	base.SetLevel(lv)
	base.SetConsoleLevel(cl)
	mods := map[string]log.Level{}
	for _, m := range []string{"main", "link", "btp2", ""} {
		if k.Intn(3) == 0 && m != "" {
			mods[m] = levelsDown[2+k.Intn(5)]
			base.SetModuleLevel(m, mods[m])
		}
	}
	if base.GetLevel() != lv || base.GetConsoleLevel() != cl {
		k.Fail("setting", "levels %v %v, want %v %v", base.GetLevel(), base.GetConsoleLevel(), lv, cl)
	}
	for _, m := range []string{"main", "link", "other"} {
		want, ok := mods[m]
		if !ok {
			want = cl
		}
		if got := base.GetModuleLevel(m); got != want {
			k.Fail("setting", "level of %s is %v, want %v", m, got, want)
		}
	}
	var file *safeBuf
	if k.Intn(2) == 0 {
		file = &safeBuf{}
		base.SetFileWriter(file)
	}
	caller := k.Intn(4) > 0
	if sc, ok := base.(interface{ SetReportCaller(bool) }); ok {
		sc.SetReportCaller(caller)
	}
	var fwd *collector
	vendor, fl, name := "", log.InfoLevel, "btp"
	if k.Intn(2) == 0 {
		vendor = []string{"logstash", "fluentd"}[k.Intn(2)]
		if fwd, err = newCollector(vendor); err != nil {
			panic(err)
		}
		defer fwd.ln.Close()
		fc := &log.ForwarderConfig{Vendor: vendor, Address: fwd.ln.Addr().String()}
		if k.Intn(2) == 0 {
			fc.Address = "tcp://" + fc.Address
		}
		if k.Intn(4) > 0 {
			fl = levelsDown[2+k.Intn(5)]
			fc.Level = upTo(fl)
		}
		if k.Intn(2) == 0 {
			name = "relay7"
			fc.Name = name
		}
		if err = log.AddForwarder(fc); err != nil {
			k.Fail("forwarder", "%v", err)
			return
		}
	}
	gs, per := 1+k.Intn(5), 4+k.Intn(24)
	k.Input("log %v console %v modules %v file %v forwarder %s %v, caller %v, %d goroutines of %d lines", lv, cl, mods, file != nil, vendor, fl, caller, gs, per)
	lines := make([][]*logLine, gs)
	type act func()
	acts := make([][]act, gs)
	var wmu sync.Mutex
	var pipes []*io.PipeWriter
	for g := 0; g < gs; g++ {
		for n := 0; n < per; n++ {
			x := &logLine{g: g, n: n, module: "main"}
			if !caller {
				x.module = ""
			}
			x.id = fmt.Sprintf("<%d.%d>", g, n)
			x.text = x.id + []string{"", " plain text", " tab\tand ü", " a=b|c", " 100%", "  two ", " end\t "}[k.Intn(7)] + strings.Repeat("z", k.Intn(3)*k.Intn(400))
			lg := base
			f := log.Fields{}
			if k.Intn(3) == 0 {
				x.module = []string{"main", "link", "btp2", "other"}[k.Intn(4)]
				f[log.FieldKeyModule] = x.module
			}
			if w, ok := global[log.FieldKeyWallet]; ok {
				x.wallet = w.(string)
			}
			if k.Intn(3) == 0 {
				x.wallet = []string{"", "a", "abc", "abcd", "abcdef"}[k.Intn(5)]
				f[log.FieldKeyWallet] = x.wallet
				if x.wallet == "" {
					x.wallet = "----"
				}
			}
			if k.Intn(4) == 0 {
				x.chain = "0x1.icon"
				f[log.FieldKeyChain] = x.chain
			}
			if k.Intn(4) == 0 {
				x.prefix = "P|"
				f[log.FieldKeyPrefix] = x.prefix
			}
			if k.Intn(4) == 0 {
				x.extra = fmt.Sprintf("v%d", k.Intn(100))
				f["extra"] = x.extra
			}
			viaGlobal := k.Intn(5) == 0
			if len(f) > 0 {
				if viaGlobal {
					lg = log.WithFields(f)
				} else {
					lg = base.WithFields(f)
				}
			}
			x.level = levelsDown[2+k.Intn(5)]
			form := k.Intn(8)
			if k.Intn(12) == 0 {
				x.level = log.PanicLevel
				form = k.Intn(3)
			}
			if form == 7 && len(f) == 0 && k.Intn(2) == 0 && x.level != log.PanicLevel {
				form = 8
			}
			if _, ok := mods["main"]; ok && form == 8 {
				form = 0
			}
			if _, ok := f[log.FieldKeyModule]; !ok && form >= 3 && form <= 5 {
				if _, ok := mods["main"]; ok {
					form = 0
				}
			}
			if _, ok := f[log.FieldKeyModule]; !ok && form >= 3 && form <= 5 {
				x.module = "?" // Log, Logf and Logln report the logger itself
				if !caller {
					x.module = ""
				}
			}
			lines[g] = append(lines[g], x)
			acts[g] = append(acts[g], func() { emit(lg, x, form, viaGlobal && len(f) == 0, &wmu, &pipes) })
		}
	}
	var wg sync.WaitGroup
	for g := range acts {
		wg.Add(1)
		go func(as []act) {
			defer wg.Done()
			for _, a := range as {
				a()
			}
		}(acts[g])
	}
	wg.Wait()
	for _, p := range pipes {
		p.Close()
	}
	all := map[string]*logLine{}
	wantConsole, wantFile, wantFwd := map[string]bool{}, map[string]bool{}, map[string]bool{}
	piped := false
	for g := range lines {
		for _, x := range lines[g] {
			all[x.id] = x
			piped = piped || x.piped
			if x.level > lv {
				continue
			}
			limit := cl
			m := x.module
			if x.piped && caller {
				m = "?" // logged by another goroutine of the logging library
			}
			if v, ok := mods[m]; ok {
				limit = v
			}
			if x.level <= limit {
				wantConsole[x.id] = true
			}
			wantFile[x.id] = true
			if x.level <= fl {
				wantFwd[x.id] = true
			}
		}
	}
	read := func() string {
		b, err := os.ReadFile(filepath.Join(dir, "console"))
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	got := func(s string) int { return strings.Count(s, "\n") }
	// what goes through pipes and connections arrives later
	for t := 0; t < 2000; t++ {
		nf := 0
		if fwd != nil {
			fwd.mu.Lock()
			nf = len(fwd.recs)
			fwd.mu.Unlock()
		}
		if got(read()) >= len(wantConsole) && (file == nil || got(file.String()) >= len(wantFile)) && (fwd == nil || nf >= len(wantFwd)) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if piped {
		time.Sleep(5 * time.Millisecond) // lines of pipes that the console leaves out
	}
	checkLines(k, "console", read(), all, wantConsole, caller)
	if file != nil {
		checkLines(k, "file", file.String(), all, wantFile, caller)
	}
	if fwd != nil {
		fwd.mu.Lock()
		defer fwd.mu.Unlock()
		if fwd.err != "" {
			k.Fail("forwarded-malformed", "%s", fwd.err)
		}
		seen := map[string]int{}
		for _, r := range fwd.recs {
			id := idOf.FindString(r.msg)
			x := all[id]
			if x == nil {
				k.Fail("forwarded-unknown", "%+v", r)
				continue
			}
			seen[id]++
			if r.msg != x.text && r.msg != x.text+"\n" {
				k.Fail("forwarded-text", "%q, want %q", r.msg, x.text)
			}
			if w := x.level.String(); r.level != w && !(w == "warn" && r.level == "warning") {
				k.Fail("forwarded-level", "%+v of level %v", r, x.level)
			}
			if r.tag != name && !strings.HasPrefix(r.tag, name) {
				k.Fail("forwarded-name", "%q, want %q", r.tag, name)
			}
			if x.module != "" && x.module != "?" && !x.piped && r.module != x.module {
				k.Fail("forwarded-module", "%q, want %q", r.module, x.module)
			}
			if x.extra != "" && fmt.Sprint(r.fields["extra"]) != x.extra {
				k.Fail("forwarded-field", "%v, want %q", r.fields, x.extra)
			}
		}
		diffSets(k, "forwarded", seen, wantFwd)
		k.Count("forwarded", int64(len(fwd.recs)))
	}
	k.Count("lines", int64(len(all)))
	k.Count("console_lines", int64(len(wantConsole)))
	k.Seen("%v %v %v %v %v %d %d", lv, cl, mods, vendor, fl, gs, per)
}

func emit(lg log.Logger, x *logLine, form int, global bool, mu *sync.Mutex, pipes *[]*io.PipeWriter) {
	defer func() {
		if r := recover(); r != nil && x.level != log.PanicLevel {
			panic(r)
		}
	}()
	type fn func(...interface{})
	type fnf func(string, ...interface{})
	fns := map[log.Level][3]interface{}{
		log.PanicLevel: {fn(lg.Panic), fnf(lg.Panicf), fn(lg.Panicln)},
		log.ErrorLevel: {fn(lg.Error), fnf(lg.Errorf), fn(lg.Errorln)},
		log.WarnLevel:  {fn(lg.Warn), fnf(lg.Warnf), fn(lg.Warnln)},
		log.InfoLevel:  {fn(lg.Info), fnf(lg.Infof), fn(lg.Infoln)},
		log.DebugLevel: {fn(lg.Debug), fnf(lg.Debugf), fn(lg.Debugln)},
		log.TraceLevel: {fn(lg.Trace), fnf(lg.Tracef), fn(lg.Traceln)},
	}
	if global {
		fns = map[log.Level][3]interface{}{
			log.PanicLevel: {fn(log.Panic), fnf(log.Panicf), fn(log.Panicln)},
			log.ErrorLevel: {fn(log.Error), fnf(log.Errorf), fn(log.Errorln)},
			log.WarnLevel:  {fn(log.Warn), fnf(log.Warnf), fn(log.Warnln)},
			log.InfoLevel:  {fn(log.Info), fnf(log.Infof), fn(log.Infoln)},
			log.DebugLevel: {fn(log.Debug), fnf(log.Debugf), fn(log.Debugln)},
			log.TraceLevel: {fn(log.Trace), fnf(log.Tracef), fn(log.Traceln)},
		}
	}
	if x.level == log.InfoLevel && form < 3 && x.n%2 == 0 {
		if global {
			fns[log.InfoLevel] = [3]interface{}{fn(log.Print), fnf(log.Printf), fn(log.Println)}
		} else {
			fns[log.InfoLevel] = [3]interface{}{fn(lg.Print), fnf(lg.Printf), fn(lg.Println)}
		}
	}
	f := fns[x.level]
	switch form {
	case 0:
		f[0].(fn)(x.text)
	case 1:
		f[1].(fnf)("%s", x.text)
	case 2:
		f[2].(fn)(x.text)
	case 3:
		lg.Log(x.level, x.text)
	case 4:
		lg.Logf(x.level, "%s", x.text)
	case 5:
		lg.Logln(x.level, x.text)
	case 6:
		f[0].(fn)(x.text + "\n")
	case 7:
		f[1].(fnf)(strings.ReplaceAll(x.text, "%", "%%"))
	case 8:
		x.piped = true
		w := lg.WriterLevel(x.level)
		if x.level == log.InfoLevel && x.n%2 == 0 {
			w = lg.Writer()
		}
		io.WriteString(w, x.text+"\n")
		mu.Lock()
		*pipes = append(*pipes, w)
		mu.Unlock()
	}
}

var idOf = regexp.MustCompile(`<\d+\.\d+>`)

func diffSets(k *mon.Case, where string, seen map[string]int, want map[string]bool) {
	var miss, extra, twice []string
	for id := range want {
		if seen[id] == 0 {
			miss = append(miss, id)
		}
	}
	for id, n := range seen {
		if !want[id] {
			extra = append(extra, id)
		} else if n > 1 {
			twice = append(twice, id)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss) > 0 {
		k.Fail(where+"-lost", "%d lines missing: %v", len(miss), miss)
	}
	if len(extra) > 0 {
		k.Fail(where+"-filter", "%d lines that its level excludes: %v", len(extra), extra)
	}
	if len(twice) > 0 {
		k.Fail(where+"-twice", "%v", twice)
	}
}

func checkLines(k *mon.Case, where, out string, all map[string]*logLine, want map[string]bool, caller bool) {
	seen := map[string]int{}
	last := map[int]int{}
	for _, s := range strings.Split(out, "\n") {
		if s == "" {
			continue
		}
		id := idOf.FindString(s)
		x := all[id]
		if x == nil || len(idOf.FindAllString(s, -1)) != 1 {
			k.Fail(where+"-garbled", "line %q", s)
			continue
		}
		seen[id]++
		p := strings.SplitN(s, "|", 6)
		if len(p) < 6 {
			k.Fail(where+"-format", "line %q", s)
			continue
		}
		if p[0] != levelLetters[x.level:x.level+1] {
			k.Fail(where+"-level", "line %q of level %v", s, x.level)
		}
		if _, err := time.Parse("15:04:05.000000", p[1]); err != nil {
			k.Fail(where+"-time", "line %q", s)
		}
		w := (x.wallet + "----")[:4]
		if p[2] != w {
			k.Fail(where+"-wallet", "line %q, want %q", s, w)
		}
		ch := x.chain
		if ch == "" {
			ch = "-"
		}
		if p[3] != ch {
			k.Fail(where+"-chain", "line %q, want %q", s, ch)
		}
		m := x.module
		if m == "" {
			m = "--"
		}
		if !x.piped && m != "?" && p[4] != m {
			k.Fail(where+"-module", "line %q, want %q", s, m)
		}
		tail := x.text
		if x.extra != "" {
			tail += " extra=" + x.extra
		}
		i := strings.Index(p[5], id)
		if i < 0 || p[5][i:] != tail {
			k.Fail(where+"-text", "line %q, want %q", s, tail)
		} else if !strings.HasPrefix(p[5], x.prefix) {
			k.Fail(where+"-prefix", "line %q, want %q", s, x.prefix)
		}
		if !x.piped {
			if n, ok := last[x.g]; ok && n >= x.n {
				k.Fail(where+"-order", "line %d of goroutine %d after %d", x.n, x.g, n)
			}
			last[x.g] = x.n
		}
	}
	diffSets(k, where, seen, want)
}

// l01rotation writes a log file beyond its limit: nothing is lost.
func l01rotation(k *mon.Case) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "rot")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	l, cf, err := consoleLogger(filepath.Join(dir, "console"))
	if err != nil {
		panic(err)
	}
	defer cf.Close()
	sub := filepath.Join(dir, "sub", "logs")
	cfg := &log.WriterConfig{Filename: filepath.Join(sub, "relay.log"), MaxSize: 1, LocalTime: k.Intn(2) == 0}
	w, err := log.NewWriter(cfg)
	if err != nil {
		k.Fail("writer", "%v", err)
		return
	}
	l.SetFileWriter(w)
	l.SetConsoleLevel(log.ErrorLevel)
	const n = 2600
	pad := strings.Repeat("y", 1000+k.Intn(200))
	k.Input("%d lines of %d bytes", n, len(pad))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < n/4; i++ {
				l.Infof("<%d.%d>%s", g, i, pad)
			}
		}(g)
	}
	wg.Wait()
	if c, ok := w.(io.Closer); ok {
		c.Close()
	}
	es, err := os.ReadDir(sub)
	if err != nil {
		k.Fail("rotation-file", "%v", err)
		return
	}
	seen := map[string]int{}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(sub, e.Name()))
		if err != nil {
			panic(err)
		}
		if len(b) > 1<<20 {
			k.Fail("rotation-size", "%s has %d bytes", e.Name(), len(b))
		}
		for _, s := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			id := idOf.FindString(s)
			if !strings.HasSuffix(s, id+pad) || id == "" {
				k.Fail("rotation-garbled", "%.200q", s)
			}
			seen[id]++
		}
	}
	want := map[string]bool{}
	for g := 0; g < 4; g++ {
		for i := 0; i < n/4; i++ {
			want[fmt.Sprintf("<%d.%d>", g, i)] = true
		}
	}
	diffSets(k, "rotation", seen, want)
	if len(es) < 3 {
		k.Fail("rotation-files", "%d files", len(es))
	}
	k.Count("rotated_files", int64(len(es)))
	k.Seen("%d", len(pad))
}

func l01levels(k *mon.Case) {
	k.Input("names of levels")
	for i, l := range levelsDown {
		got, err := log.ParseLevel(l.String())
		if err != nil || got != l || int(l) != i {
			k.Fail("level-name", "%v: %v %v", l, got, err)
		}
		got, err = log.ParseLevel(strings.ToUpper(l.String()))
		if err != nil || got != l {
			k.Fail("level-name", "%v: %v %v", l, got, err)
		}
		hl, err := (&log.ForwarderConfig{Level: l.String()}).HookLevels()
		if err != nil || len(hl) != i+1 {
			k.Fail("forward-levels", "%v: %v %v", l, hl, err)
		}
		seen := map[int]bool{}
		for _, h := range hl {
			seen[int(h)] = true
		}
		for j := 0; j <= i; j++ {
			if !seen[j] {
				k.Fail("forward-levels", "%v lacks %d", l, j)
			}
		}
	}
	for _, s := range []string{"", "inf", "warning!", "0", "infoo", " info"} {
		if _, err := log.ParseLevel(s); err == nil {
			k.Fail("level-accepted", "%q", s)
		}
	}
	for i, v := range []interface{}{1, nil, "", []int{1}, struct{}{}} {
		l, f, err := consoleLogger(filepath.Join(os.Getenv("VERIF_WORK"), "levels-console"))
		if err != nil {
			panic(err)
		}
		for _, key := range []string{log.FieldKeyModule, log.FieldKeyWallet, log.FieldKeyChain, log.FieldKeyPrefix, "other"} {
			l.WithFields(log.Fields{key: v}).Infof("<%d.0>", i)
		}
		f.Close()
		b, _ := os.ReadFile(f.Name())
		os.Remove(f.Name())
		if n := strings.Count(string(b), fmt.Sprintf("<%d.0>", i)); n != 5 {
			k.Fail("field-type", "%d of 5 lines with a field %T: %s", n, v, b)
		}
	}
	k.Seen("levels")
}

func l01forwarderConfig(k *mon.Case) {
	before := log.GlobalLogger()
	defer log.SetGlobalLogger(before)
	l, f, err := consoleLogger(filepath.Join(os.Getenv("VERIF_WORK"), "fwd-console"))
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	log.SetGlobalLogger(l)
	c, err := newCollector("logstash")
	if err != nil {
		panic(err)
	}
	addr := c.ln.Addr().String()
	c.ln.Close()
	bad := []log.ForwarderConfig{
		{Vendor: "", Address: addr}, {Vendor: "syslog", Address: addr}, {Vendor: "logstash"}, {Vendor: "logstash", Address: "tcp://"},
		{Vendor: "fluentd", Address: "unix://" + addr}, {Vendor: "logstash", Address: addr, Level: "loud"}, {Vendor: "logstash", Address: addr},
		{Vendor: "fluentd", Address: addr, Options: map[string]interface{}{"max_retry": "x"}}, {Vendor: "fluentd", Address: "tcp://", Level: "info"},
		{Vendor: "logstash", Address: "%zz"}, {Vendor: "fluentd", Address: addr, Options: map[string]interface{}{"timeout": []int{1}}},
	}[k.Intn(11)]
	k.Input("%+v", bad)
	if err := log.AddForwarder(&bad); err == nil {
		k.Fail("forwarder-accepted", "%+v", bad)
	}
	l.Infof("<1.1>")
	b, _ := os.ReadFile(f.Name())
	if strings.Count(string(b), "<1.1>") != 1 {
		k.Fail("forwarder-console", "%q", b)
	}
	k.Seen("%+v", bad)
}
