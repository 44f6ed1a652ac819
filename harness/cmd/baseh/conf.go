package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/icon-project/btp/common/wallet"

	"verifharness/internal/mon"
	"verifharness/internal/sim"
	"verifharness/internal/world"
)

func init() { props["F01"] = f01 }

func f01(c *mon.Ctx) {
	c.Rule("the relay binary run with random settings from flags, environment and configuration files in scratch directories; a run is distinct by its settings")
	c.RunP("save", c.N(160, 4000), 6, f01save)
	c.RunP("start", c.N(60, 900), 6, f01start)
	c.RunP("file", c.N(300, 5000), 6, f01file)
	c.RunP("refuse", c.N(120, 1200), 6, f01refuse)
	c.RunP("deliver", c.N(40, 600), 6, f01deliver)
}

type runner struct {
	dir string // working directory of the relay
	env []string
}

func (r *runner) run(args ...string) (string, int) {
	cmd := exec.Command(os.Getenv("VERIF_RELAY"), args...)
	cmd.Dir = r.dir
	cmd.Env = append([]string{"HOME=" + r.dir, "PATH=/nonexistent"}, r.env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return out.String(), 0
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

// setting is one entry of the configuration.
type setting struct {
	key  string
	kind string // s string, b bool, i int, m map
	def  interface{}
	vals []string
}

var settings = []setting{
	{"src.address", "s", "", []string{"btp://0x1.icon/cx1111111111111111111111111111111111111111", "btp://0x3.eth/0x12", "btp://a.icon/b"}},
	{"src.endpoint", "s", "", []string{"http://127.0.0.1:1/api/v3", "ws://h/x?y=1&z=2", "http://h:80"}},
	{"src.bridge_mode", "b", false, []string{"true", "false"}},
	{"src.options", "m", nil, []string{"stepLimit=5", "steplimit=2500000000,x=y", "a=b", "f=0.5,g=0x10"}},
	{"dst.address", "s", "", []string{"btp://0x2.icon/cx2222222222222222222222222222222222222222", "btp://0x63.hardhat/0xab", "btp://q.eth/w"}},
	{"dst.endpoint", "s", "", []string{"http://127.0.0.1:2/api/v3", "http://e/"}},
	{"dst.bridge_mode", "b", false, []string{"true", "false"}},
	{"dst.options", "m", nil, []string{"stepLimit=7", "p=q,r=9"}},
	{"direction", "s", "both", []string{"front", "reverse", "both"}},
	{"maxSizeTx", "b", false, []string{"true", "false"}},
	{"offset", "i", int64(0), []string{"1", "77", "9007199254740991", "-3"}},
	{"log_level", "s", "debug", []string{"info", "trace", "warn"}},
	{"console_level", "s", "trace", []string{"info", "error", "debug"}},
	{"log_forwarder.vendor", "s", "", []string{"fluentd", "logstash"}},
	{"log_forwarder.address", "s", "", []string{"127.0.0.1:9", "tcp://h:7"}},
	{"log_forwarder.level", "s", "info", []string{"warn", "debug"}},
	{"log_forwarder.name", "s", "", []string{"n1", "n 2"}},
	{"log_writer.maxsize", "i", int64(100), []string{"1", "200"}},
	{"log_writer.maxage", "i", int64(0), []string{"3", "9"}},
	{"log_writer.maxbackups", "i", int64(0), []string{"2"}},
	{"log_writer.localtime", "b", false, []string{"true"}},
	{"log_writer.compress", "b", false, []string{"true", "false"}},
}

func parsed(kind, v string) interface{} {
	switch kind {
	case "b":
		return v == "true"
	case "i":
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	case "m":
		m := map[string]interface{}{}
		for _, p := range strings.Split(v, ",") {
			kv := strings.SplitN(p, "=", 2)
			if n, err := strconv.ParseInt(kv[1], 0, 64); err == nil {
				m[kv[0]] = n
			} else if f, err := strconv.ParseFloat(kv[1], 64); err == nil {
				m[kv[0]] = f
			} else {
				m[kv[0]] = kv[1]
			}
		}
		return m
	}
	return v
}

func put(m map[string]interface{}, key string, v interface{}) {
	p := strings.Split(key, ".")
	for _, s := range p[:len(p)-1] {
		if _, ok := m[s]; !ok {
			m[s] = map[string]interface{}{}
		}
		m = m[s].(map[string]interface{})
	}
	m[p[len(p)-1]] = v
}

func get(m map[string]interface{}, key string) interface{} {
	var v interface{} = m
	for _, s := range strings.Split(key, ".") {
		mm, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v = mm[s]
	}
	return v
}

// plain makes values comparable: numbers as float64, keys in lower case.
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case int:
		return float64(x)
	case map[string]interface{}:
		if len(x) == 0 {
			return nil
		}
		r := map[string]interface{}{}
		for a, b := range x {
			r[strings.ToLower(a)] = plain(b)
		}
		return r
	}
	return v
}

func envName(key string) string {
	return "BTP2_" + strings.ToUpper(strings.ReplaceAll(key, ".", "_"))
}

// confDirs makes a directory tree of a case; the returned directory is the
// working directory of the relay.
func confDirs() (root, cwd string) {
	root, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "conf")
	if err != nil {
		panic(err)
	}
	if root, err = filepath.EvalSymlinks(root); err != nil {
		panic(err)
	}
	cwd = filepath.Join(root, "a", "cwd")
	for _, d := range []string{"a/cwd/in", "a/cwd/logs", "b/etc"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
			panic(err)
		}
	}
	return
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0600); err != nil {
		panic(err)
	}
}

// keyStoreFile makes a key store with cheap parameters.
func keyStoreFile(k *mon.Case, pw []byte) (data, sec []byte) {
	sec = secretKey(k)
	data = refStore(k, sec, pw, 4, nil)
	return
}

type side struct {
	sec    []byte // expected key, nil: generated
	pw     []byte
	secret string
}

func f01save(k *mon.Case) {
	root, cwd := confDirs()
	defer os.RemoveAll(root)
	r := &runner{dir: cwd}
	file := map[string]interface{}{}
	var flags []string
	want := map[string]interface{}{}
	desc := []string{}
	cfgRel := []string{"in/conf.json", "conf.json", "../../b/etc/c.json"}[k.Intn(3)]
	cfgPath := filepath.Join(cwd, cfgRel)
	useFile := k.Intn(4) > 0
	for _, s := range settings {
		want[s.key] = s.def
		set := func(where string, v string) {
			want[s.key] = parsed(s.kind, v)
			desc = append(desc, fmt.Sprintf("%s %s=%s", where, s.key, v))
		}
		any := func() string { return s.vals[k.Intn(len(s.vals))] }
		if useFile && k.Intn(3) == 0 {
			v := any()
			put(file, s.key, parsed(s.kind, v))
			set("file", v)
		}
		// the options are taken as a whole from one place
		if s.kind == "m" && get(file, s.key) != nil {
			continue
		}
		if k.Intn(4) == 0 && !(strings.Contains(strings.Join(desc, " "), "env "+s.key)) {
			v := any()
			r.env = append(r.env, envName(s.key)+"="+v)
			set("env", v)
			if s.kind == "m" {
				continue
			}
		}
		if k.Intn(4) == 0 {
			v := any()
			if s.kind == "b" {
				flags = append(flags, "--"+s.key+"="+v)
			} else {
				flags = append(flags, "--"+s.key, v)
			}
			set("flag", v)
		}
	}
	// key stores and passwords
	sides := map[string]*side{}
	for _, d := range []string{"src", "dst"} {
		x := &side{}
		sides[d] = x
		if k.Intn(3) > 0 {
			x.pw = []byte(fmt.Sprintf("pw%d", k.Intn(1000)))
		}
		if k.Intn(4) > 0 {
			data, sec := keyStoreFile(k, x.pw)
			x.sec = sec
			ks := filepath.Join(cwd, d+".ks")
			switch i := k.Intn(3); {
			case i == 0 && useFile:
				var m map[string]interface{}
				if err := json.Unmarshal(data, &m); err != nil {
					panic(err)
				}
				put(file, d+".key_store", m)
				desc = append(desc, d+" key store inside")
			case i == 1:
				write(ks, data)
				r.env = append(r.env, envName(d+".key_store")+"="+ks)
			default:
				write(ks, data)
				flags = append(flags, "--"+d+".key_store", d+".ks")
			}
		}
		if len(x.pw) > 0 {
			switch k.Intn(4) {
			case 0:
				flags = append(flags, "--"+d+".key_password", string(x.pw))
			case 1:
				r.env = append(r.env, envName(d+".key_password")+"="+string(x.pw))
			default:
				x.secret = filepath.Join(cwd, d+".secret")
				write(x.secret, x.pw)
				flags = append(flags, "--"+d+".key_secret", x.secret)
			}
		}
	}
	// paths
	abs := func(base, p string) string {
		if p == "" || filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(base, p)
	}
	paths := map[string]string{"base_dir": "", "log_writer.filename": ""}
	for key := range paths {
		_ = key
	}
	for _, key := range []string{"base_dir", "log_writer.filename"} {
		vals := []string{"d1/x", "../up", filepath.Join(root, "b", "abs"), "logs/y.log", "./z"}
		any := func() string { return vals[k.Intn(len(vals))] }
		if useFile && k.Intn(3) == 0 {
			v := any()
			put(file, key, v)
			paths[key] = abs(filepath.Dir(cfgPath), v)
			desc = append(desc, "file "+key+"="+v)
		}
		if k.Intn(4) == 0 {
			v := any()
			r.env = append(r.env, envName(key)+"="+v)
			paths[key] = abs(cwd, v)
			desc = append(desc, "env "+key+"="+v)
		}
		if k.Intn(4) == 0 {
			v := any()
			flags = append(flags, "--"+key, v)
			paths[key] = abs(cwd, v)
			desc = append(desc, "flag "+key+"="+v)
		}
	}
	if useFile {
		b, _ := json.Marshal(file)
		write(cfgPath, b)
		p := cfgRel
		if k.Intn(3) == 0 {
			p = cfgPath
		}
		if k.Intn(4) == 0 {
			r.env = append(r.env, "BTP2_CONFIG="+p)
		} else {
			flags = append(flags, "--config", p)
		}
	}
	outRel := []string{"out.json", "in/out.json", "../../b/new/out.json", filepath.Join(root, "b", "etc", "o.json")}[k.Intn(4)]
	outPath := abs(cwd, outRel)
	args := append([]string{"save"}, flags...)
	wantStores := map[string]string{}
	for _, d := range []string{"src", "dst"} {
		if k.Intn(3) == 0 {
			p := d + "-saved.ks"
			wantStores[d] = filepath.Join(cwd, p)
			args = append(args, "--save_"+d+"_key_store", p)
		}
	}
	args = append(args, outRel)
	k.Input("cwd %s config %v %s; %s; args %v env %v", strings.TrimPrefix(cwd, root), useFile, cfgRel, strings.Join(desc, ", "), flags, r.env)
	if k.Intn(2) == 0 { // a longer file of an earlier save is in the place
		write(outPath, append(append([]byte(`{"old":"`), bytes.Repeat([]byte("x"), 9000)...), `"}`...))
	}
	before := tree(root)
	delete(before, strings.TrimPrefix(outPath, root+"/"))
	out, code := r.run(args...)
	if code != 0 {
		k.Fail("save", "exit %d: %.1500s", code, out)
		return
	}
	if strings.Contains(out, "panic:") {
		k.Fail("save-panic", "%s", out)
	}
	first := checkSaved(k, "saved", outPath, want, paths, sides)
	if first == nil {
		return
	}
	for d, p := range wantStores {
		st, err := os.Stat(p)
		if err != nil {
			k.Fail("store-not-saved", "%s: %v", d, err)
			continue
		}
		if st.Mode().Perm()&0077 != 0 {
			k.Fail("store-mode", "%v", st.Mode())
		}
		b, _ := os.ReadFile(p)
		var m map[string]interface{}
		if err := json.Unmarshal(b, &m); err != nil || !reflect.DeepEqual(plain(m), plain(get(first, d+".key_store"))) {
			k.Fail("store-other", "%s: %s", d, b)
		}
	}
	// nothing else was touched
	after := tree(root)
	for p, s := range before {
		if after[p] != s {
			k.Fail("touched", "%s: %q, was %q", p, after[p], s)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && filepath.Join(root, p) != outPath && !strings.HasSuffix(p, "-saved.ks") && p != strings.TrimPrefix(filepath.Dir(outPath), root+"/") {
			k.Fail("touched", "made %s", p)
		}
	}
	// saving the saved configuration somewhere else changes nothing
	r2 := &runner{dir: filepath.Join(root, "b")}
	out2 := filepath.Join(root, "b", "etc", "again.json")
	args = []string{"--config", outPath, "save", "etc/again.json"}
	for d, x := range sides {
		if len(x.pw) > 0 && x.secret == "" {
			args = append(args, "--"+d+".key_password", string(x.pw))
		}
	}
	if out, code = r2.run(args...); code != 0 {
		k.Fail("save-again", "exit %d: %.1500s", code, out)
		return
	}
	second := checkSaved(k, "saved-again", out2, want, paths, sides)
	if second != nil {
		for _, d := range []string{"src.key_store", "dst.key_store"} {
			if !reflect.DeepEqual(plain(get(first, d)), plain(get(second, d))) {
				k.Fail("store-changed", "%s: %v, was %v", d, get(second, d), get(first, d))
			}
		}
	}
	k.Count("settings", int64(len(desc)))
	k.Seen("%v %v", desc, cfgRel)
}

// tree gives the files below a directory.
func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			m[rel] = "dir"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = hex.EncodeToString(keccak(b))
		return nil
	})
	return m
}

func checkSaved(k *mon.Case, what, path string, want map[string]interface{}, paths map[string]string, sides map[string]*side) map[string]interface{} {
	b, err := os.ReadFile(path)
	if err != nil {
		k.Fail(what+"-missing", "%v", err)
		return nil
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		k.Fail(what+"-json", "%v: %s", err, b)
		return nil
	}
	keys := []string{}
	for key := range want {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		got := get(m, key)
		if !reflect.DeepEqual(plain(got), plain(want[key])) {
			k.Fail(what+"-setting", "%s is %v (%T), want %v", key, got, got, want[key])
		}
	}
	for key, p := range paths {
		got, _ := get(m, key).(string)
		a := got
		if got != "" && !filepath.IsAbs(got) {
			a = filepath.Join(filepath.Dir(path), got)
		}
		if a != p && !(key == "base_dir" && p == "" && got == "") {
			k.Fail(what+"-path", "%s is %q, which is %q, want %q", key, got, a, p)
		}
	}
	for d, x := range sides {
		if pw := get(m, d+".key_password"); pw != nil && pw != "" {
			k.Fail(what+"-password", "the password of %s is in the file", d)
		}
		if len(x.pw) > 0 && x.secret == "" && bytes.Contains(b, []byte(`"`+string(x.pw)+`"`)) {
			k.Fail(what+"-password", "the password of %s is in the file", d)
		}
		ks, err := json.Marshal(get(m, d+".key_store"))
		if err != nil {
			panic(err)
		}
		w, err := wallet.DecryptKeyStore(ks, x.pw)
		if err != nil {
			k.Fail(what+"-store", "%s: %v", d, err)
			continue
		}
		if x.sec != nil {
			sameWallet(k, w, x.sec, what+" "+d)
		}
		if got, _ := get(m, d+".key_secret").(string); got != x.secret {
			k.Fail(what+"-secret", "%s: %q, want %q", d, got, x.secret)
		}
	}
	return m
}

// endpoint records which requests reach it.
type endpoint struct {
	s *httptest.Server
	n int64
}

func newEndpoint() *endpoint {
	e := &endpoint{}
	e.s = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt64(&e.n, 1)
		http.Error(w, "no", http.StatusServiceUnavailable)
	}))
	return e
}

// f01start starts the relay and looks at where it connects and logs to.
func f01start(k *mon.Case) {
	root, cwd := confDirs()
	defer os.RemoveAll(root)
	pws := map[string][]byte{"src": []byte("secret of src"), "dst": []byte("secret of dst")}
	srcKs, srcSec := keyStoreFile(k, pws["src"])
	dstKs, dstSec := keyStoreFile(k, pws["dst"])
	eps := map[string]*endpoint{}
	for _, n := range []string{"src", "dst", "src-other", "dst-other"} {
		eps[n] = newEndpoint()
		defer eps[n].s.Close()
	}
	var sm, dm map[string]interface{}
	json.Unmarshal(srcKs, &sm)
	json.Unmarshal(dstKs, &dm)
	dir := []string{"front", "reverse", "both"}[k.Intn(3)]
	bridge := k.Intn(2) == 0
	file := map[string]interface{}{}
	put(file, "src.address", "btp://0x1.icon/cx1111111111111111111111111111111111111111")
	put(file, "dst.address", "btp://0x2.icon/cx2222222222222222222222222222222222222222")
	put(file, "src.key_store", sm)
	put(file, "dst.key_store", dm)
	r := &runner{dir: cwd}
	args := []string{"start"}
	desc := []string{}
	for _, d := range []string{"src", "dst"} {
		switch i := k.Intn(5); i {
		case 0:
			put(file, d+".key_password", string(pws[d]))
		case 1:
			args = append(args, "--"+d+".key_password", string(pws[d]))
		case 2:
			r.env = append(r.env, envName(d+".key_password")+"="+string(pws[d]))
		default: // a secret file comes before a password
			write(filepath.Join(root, "b", d+".secret"), pws[d])
			if i == 3 {
				put(file, d+".key_secret", filepath.Join(root, "b", d+".secret"))
				put(file, d+".key_password", "another")
			} else {
				args = append(args, "--"+d+".key_secret", "../../b/"+d+".secret")
			}
			desc = append(desc, d+" secret file")
		}
	}
	put(file, "src.bridge_mode", bridge)
	put(file, "dst.bridge_mode", bridge)
	put(file, "direction", dir)
	lv := map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4}
	lvs := []string{"trace", "trace", "debug", "info", "warn", "error"}
	logLv, conLv, modLv := lvs[k.Intn(2)], lvs[k.Intn(len(lvs))], ""
	if k.Intn(3) == 0 {
		logLv = lvs[k.Intn(len(lvs))]
	}
	for key, v := range map[string]string{"log_level": logLv, "console_level": conLv} {
		if k.Intn(2) == 0 {
			put(file, key, v)
		} else {
			put(file, key, "info")
			args = append(args, "--"+key, v)
		}
	}
	if k.Intn(3) == 0 {
		modLv = lvs[k.Intn(len(lvs))]
		args = append(args, "--mod_level", "none=error,main="+modLv)
	} else if k.Intn(2) == 0 {
		args = append(args, "--mod_level", "none=error")
	}
	desc = append(desc, dir, fmt.Sprint("bridge ", bridge), logLv, conLv, modLv)
	for _, d := range []string{"src", "dst"} {
		switch k.Intn(4) {
		case 0:
			put(file, d+".endpoint", eps[d].s.URL+"/api/v3")
		case 1:
			put(file, d+".endpoint", eps[d+"-other"].s.URL+"/api/v3")
			args = append(args, "--"+d+".endpoint", eps[d].s.URL+"/api/v3")
			desc = append(desc, d+" flag over file")
		case 2:
			put(file, d+".endpoint", eps[d+"-other"].s.URL+"/api/v3")
			r.env = append(r.env, envName(d+".endpoint")+"="+eps[d].s.URL+"/api/v3")
			desc = append(desc, d+" env over file")
		case 3:
			r.env = append(r.env, envName(d+".endpoint")+"="+eps[d+"-other"].s.URL+"/api/v3")
			args = append(args, "--"+d+".endpoint", eps[d].s.URL+"/api/v3")
			desc = append(desc, d+" flag over env")
		}
	}
	if k.Intn(3) == 0 {
		if k.Intn(2) == 0 {
			args = append(args, "--src.options", "stepLimit=1000000", "--dst.options", "stepLimit=2000000")
			desc = append(desc, "options by flag")
		} else {
			put(file, "src.options", map[string]interface{}{"stepLimit": 1000000})
			desc = append(desc, "options by file")
		}
	}
	cfgPath := filepath.Join(cwd, "in", "conf.json")
	logPath := ""
	switch k.Intn(5) {
	case 0:
		put(file, "log_writer.filename", "rel/x.log")
		logPath = filepath.Join(cwd, "in", "rel", "x.log")
	case 1:
		args = append(args, "--log_writer.filename", "logs/y.log")
		logPath = filepath.Join(cwd, "logs", "y.log")
	case 2:
		logPath = filepath.Join(root, "b", "z.log")
		put(file, "log_writer.filename", logPath)
	case 3:
		r.env = append(r.env, "BTP2_LOG_WRITER_FILENAME=w.log")
		logPath = filepath.Join(cwd, "w.log")
	}
	var fwd *collector
	if k.Intn(2) == 0 {
		var err error
		if fwd, err = newCollector("logstash"); err != nil {
			panic(err)
		}
		defer fwd.ln.Close()
		put(file, "log_forwarder.vendor", "logstash")
		put(file, "log_forwarder.address", fwd.ln.Addr().String())
		put(file, "log_forwarder.level", "trace")
	}
	b, _ := json.Marshal(file)
	write(cfgPath, b)
	args = append(args, "--config", "in/conf.json")
	k.Input("%s; args %v env %v", strings.Join(desc, ", "), args, r.env)
	before := tree(root)
	cmd := exec.Command(os.Getenv("VERIF_RELAY"), args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{"HOME=" + cwd, "PATH=/nonexistent"}, r.env...)
	var out safeBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { cmd.Process.Kill(); <-done }) }
	go func() { cmd.Wait(); close(done) }()
	defer stop()
	want := map[string]bool{"src": true, "dst": true}
	ok := func() bool {
		for n := range want {
			if atomic.LoadInt64(&eps[n].n) == 0 {
				return false
			}
		}
		if fwd != nil && lv[logLv] <= 1 {
			fwd.mu.Lock()
			defer fwd.mu.Unlock()
			return len(fwd.recs) > 0
		}
		return true
	}
	deadline := time.Now().Add(15 * time.Second)
	ended := false
	for !ok() && time.Now().Before(deadline) && !ended {
		select {
		case <-done:
			ended = true
		default:
			time.Sleep(5 * time.Millisecond)
		}
	}
	killed := false
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
		killed = true
	}
	level := func(l string) int { return strings.Index("TDIWEFP", l[:1]) }
	isLine := func(l string) bool { return len(l) > 2 && l[1] == '|' && level(l) >= 0 }
	module := func(l string) string {
		if f := strings.Split(l, "|"); len(f) > 4 {
			return f[4]
		}
		return ""
	}
	shown := func(l string) bool {
		lim := lv[conLv]
		if modLv != "" && module(l) == "main" {
			lim = lv[modLv]
		}
		return isLine(l) && level(l) >= lim
	}
	// a line reaches the file before the console, and one of a busy machine's threads may be in between
	for i := 0; i < 100 && killed && logPath != ""; i++ {
		lb, _ := os.ReadFile(logPath)
		con, missing := out.String(), false
		for _, l := range strings.Split(strings.TrimRight(string(lb), "\n"), "\n") {
			missing = missing || shown(l) && !strings.Contains(con, l)
		}
		if !missing {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	stop()
	text := out.String()
	if strings.Contains(text, "panic:") || strings.Contains(text, "fatal error") {
		k.Fail("start-crash", "%.3000s", text)
		return
	}
	// the destination of a direction is asked for its state before the source is followed
	reached := 0
	for n := range want {
		if atomic.LoadInt64(&eps[n].n) > 0 {
			reached++
		}
	}
	if reached == 0 {
		k.Fail("not-connected", "no endpoint was reached: %.2000s", text)
	}
	for _, n := range []string{"src-other", "dst-other"} {
		if atomic.LoadInt64(&eps[n].n) > 0 {
			k.Fail("wrong-endpoint", "%s was reached", n)
		}
	}
	if (dir == "front" && atomic.LoadInt64(&eps["dst"].n) == 0) || (dir == "reverse" && atomic.LoadInt64(&eps["src"].n) == 0) {
		k.Fail("direction", "%s does not reach its destination: %.2000s", dir, text)
	}
	if fwd != nil && dir == "both" {
		// a line reaches the console and the forwarder as often
		fwd.mu.Lock()
		seen := map[string]int{}
		for _, rec := range fwd.recs {
			seen[fmt.Sprint(rec.fields["logtime"], rec.msg)]++
		}
		fwd.mu.Unlock()
		for l, n := range seen {
			if n > 1 {
				k.Fail("forwarded-twice", "%q %d times", l, n)
				break
			}
		}
	}
	after := tree(root)
	for p, s := range before {
		if after[p] != s {
			k.Fail("touched", "%s: %q, was %q", p, after[p], s)
		}
	}
	rel, _ := filepath.Rel(root, logPath)
	for p, s := range after {
		if _, ok := before[p]; !ok && s != "dir" && (logPath == "" || p != rel) {
			k.Fail("touched", "made %s", p)
		}
	}
	// levels: what the file has is on the console if its level says so
	onConsole := map[string]int{}
	setUp := false
	for _, l := range strings.Split(text, "\n") {
		if !isLine(l) {
			continue
		}
		onConsole[l]++
		setUp = setUp || !strings.Contains(l, "|----|") // lines before the levels are set
		lim := lv[conLv]
		if modLv != "" && module(l) == "main" {
			lim = lv[modLv]
		}
		if lim < lv[logLv] {
			lim = lv[logLv]
		}
		if setUp && logPath != "" && level(l) < lim {
			k.Fail("console-level", "log_level %s, console_level %s, main=%s: %q", logLv, conLv, modLv, l)
		}
	}
	if logPath != "" {
		lb, _ := os.ReadFile(logPath)
		ls := strings.Split(strings.TrimRight(string(lb), "\n"), "\n")
		for i, l := range ls {
			if !isLine(l) {
				continue
			}
			if level(l) < lv[logLv] {
				k.Fail("file-level", "log_level %s: %q", logLv, l)
			}
			lim := lv[conLv]
			if modLv != "" && module(l) == "main" {
				lim = lv[modLv]
			}
			if level(l) >= lim && onConsole[l] == 0 && (!killed || i < len(ls)-3) {
				k.Fail("console-lost", "console_level %s, main=%s: not on the console: %q", conLv, modLv, l)
			}
			k.Count("log_lines", 1)
		}
	}
	if logPath != "" && lv[logLv] <= 1 {
		lb, err := os.ReadFile(logPath)
		if err != nil || len(lb) == 0 {
			k.Fail("log-file", "%v, %d bytes", err, len(lb))
		} else {
			w := icxAddress(refKey(srcSec))[2:6]
			if dir == "reverse" {
				w = icxAddress(refKey(dstSec))[2:6]
			}
			if !strings.Contains(string(lb), "|"+w+"|") {
				k.Fail("log-wallet", "no line of the wallet %s: %.1500s", w, lb)
			}
		}
	}
	k.Count("starts", 1)
	k.Seen("%v %v %v", desc, logPath != "", fwd != nil)
}

// f01refuse gives the relay settings it has to refuse.
func f01refuse(k *mon.Case) {
	root, cwd := confDirs()
	defer os.RemoveAll(root)
	pw := []byte("secret")
	ks, _ := keyStoreFile(k, pw)
	write(filepath.Join(cwd, "k.ks"), ks)
	write(filepath.Join(cwd, "ok.secret"), pw)
	write(filepath.Join(cwd, "bad.json"), []byte(`{"src":{`))
	write(filepath.Join(cwd, "bad.ks"), []byte(`{"address":1`))
	ep := newEndpoint()
	defer ep.s.Close()
	url := ep.s.URL
	full := map[string]string{
		"src.address": "btp://0x1.icon/cx1111111111111111111111111111111111111111", "dst.address": "btp://0x2.icon/cx2222222222222222222222222222222222222222",
		"src.endpoint": url, "dst.endpoint": url, "src.key_store": "k.ks", "dst.key_store": "k.ks", "src.key_secret": "ok.secret", "dst.key_secret": "ok.secret",
		"direction": []string{"front", "reverse", "both"}[k.Intn(3)],
	}
	save := k.Intn(2) == 0
	what := ""
	d := []string{"src", "dst"}[k.Intn(2)]
	var extra []string
	switch k.Intn(10) {
	case 0:
		full[d+".key_secret"] = "none.secret"
		what = "unreadable secret of " + d
	case 1:
		delete(full, d+".key_secret")
		full[d+".key_password"] = "wrong"
		what = "wrong password of " + d
	case 2:
		full[d+".key_store"] = "bad.ks"
		what = "damaged key store of " + d
	case 3:
		full[d+".key_store"] = "none.ks"
		what = "missing key store of " + d
	case 4:
		extra = []string{"--config", []string{"none.json", "bad.json"}[k.Intn(2)]}
		what = "unreadable configuration"
	case 5:
		extra = []string{[]string{"--unknown=1", "--offset=x", "--src.bridge_mode=perhaps", "--src.options=abc"}[k.Intn(4)]}
		what = "malformed flag"
	case 6, 8, 9:
		save = false
		delete(full, []string{"src.address", "dst.address", "src.endpoint", "dst.endpoint"}[k.Intn(4)])
		what = "missing setting"
	case 7:
		save = false
		full[[]string{"direction", "log_level", "console_level"}[k.Intn(3)]] = "sideways"
		what = "unknown direction or level"
	}
	var keys []string
	for key := range full {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	args := []string{"start"}
	if save {
		args = []string{"save"}
	}
	for _, key := range keys {
		args = append(args, "--"+key, full[key])
	}
	args = append(args, extra...)
	if save {
		args = append(args, "out.json")
	}
	k.Input("%s: %v", what, args)
	before := tree(root)
	out, code := (&runner{dir: cwd}).run(args...)
	if code == 0 || code == -1 {
		k.Fail("accepted", "%s: exit %d: %.1500s", what, code, out)
	}
	if !strings.Contains(what, "level") && (strings.Contains(out, "goroutine ") || strings.Contains(out, "panic:")) {
		k.Fail("refuse-crash", "%s: %.2000s", what, out)
	}
	if n := atomic.LoadInt64(&ep.n); n > 0 {
		k.Fail("used", "%s: %d requests were made with refused settings", what, n)
	}
	if strings.TrimSpace(out) == "" {
		k.Fail("silent", "%s: no message", what)
	}
	if !reflect.DeepEqual(before, tree(root)) {
		k.Fail("touched", "%s: files changed: %v", what, tree(root))
	}
	k.Count("refusals", 1)
	k.Seen("%s %v", what, save)
}

// f01deliver starts the relay with settings from everywhere between simulated
// chains and looks at what the settings became: the links it serves, the
// wallets that send, the limit the transactions carry.
func f01deliver(k *mon.Case) {
	root, cwd := confDirs()
	defer os.RemoveAll(root)
	a := sim.NewIconNode("0x3", "cx"+fmt.Sprintf("%040x", k.Int63()))
	b := sim.NewIconNode("0x2", "cx"+fmt.Sprintf("%040x", k.Int63()))
	defer a.Close()
	defer b.Close()
	sec := map[string]*ecdsa.PrivateKey{"src": sim.Key(k.Rand), "dst": sim.Key(k.Rand)}
	p := world.Profile{Blocks: 3, MaxMsgs: 3, Sizes: []int{16, 300}, Empty: 0.2, WS: true}
	kinds := []string{"btp2", "bridge"}
	ka, kb := kinds[k.Intn(2)], kinds[k.Intn(2)]
	dir := []string{"front", "reverse", "both"}[k.Intn(3)]
	p.Node = a
	wa := world.New(ka, k.Rand, p, b.Addr)
	p.Node = b
	wb := world.New(kb, k.Rand, p, a.Addr)
	b.Dst, b.PrevAddr = wa.V, a.Addr
	a.Dst, a.PrevAddr = wb.V, b.Addr
	b.Relays[sim.IconAddr(sec["dst"])] = true
	a.Relays[sim.IconAddr(sec["src"])] = true
	step := int64(1000000 + k.Intn(1<<30))
	val := map[string]string{
		"src.address": a.Addr, "dst.address": b.Addr, "src.endpoint": a.Endpoint(), "dst.endpoint": b.Endpoint(),
		"src.bridge_mode": fmt.Sprint(ka == "bridge"), "dst.bridge_mode": fmt.Sprint(kb == "bridge"), "direction": dir,
		"log_level": "error", "console_level": "error", "base_dir": "data",
	}
	wrong := map[string]string{
		"src.address": "btp://0x9.icon/cx9999999999999999999999999999999999999999", "dst.address": "btp://0x8.icon/cx8888888888888888888888888888888888888888",
		"src.endpoint": "http://127.0.0.1:1", "dst.endpoint": "http://127.0.0.1:1", "src.bridge_mode": fmt.Sprint(ka != "bridge"), "dst.bridge_mode": fmt.Sprint(kb != "bridge"),
		"direction": map[string]string{"front": "reverse", "reverse": "front", "both": "front"}[dir], "log_level": "warn", "console_level": "warn", "base_dir": "other",
	}
	file := map[string]interface{}{}
	r := &runner{dir: cwd}
	args := []string{"start"}
	desc := []string{dir, ka, kb}
	typed := func(key, v string) interface{} {
		if strings.HasSuffix(key, "bridge_mode") {
			return v == "true"
		}
		return v
	}
	keys := []string{}
	for key := range val {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		v, w := val[key], wrong[key]
		where := k.Intn(6)
		switch where {
		case 0, 1:
			put(file, key, typed(key, v))
		case 2:
			r.env = append(r.env, envName(key)+"="+v)
		case 3:
			args = append(args, "--"+key+"="+v)
		case 4:
			put(file, key, typed(key, w))
			r.env = append(r.env, envName(key)+"="+v)
		case 5:
			put(file, key, typed(key, w))
			r.env = append(r.env, envName(key)+"="+w)
			args = append(args, "--"+key+"="+v)
		}
		desc = append(desc, fmt.Sprintf("%s:%d", key, where))
	}
	for _, d := range []string{"src", "dst"} {
		pw := fmt.Sprintf("pw-%s-%d", d, k.Intn(100))
		ks := sim.IconKeyStore(sec[d], pw)
		if k.Intn(2) == 0 {
			var m map[string]interface{}
			json.Unmarshal(ks, &m)
			put(file, d+".key_store", m)
		} else {
			write(filepath.Join(cwd, d+".ks"), ks)
			args = append(args, "--"+d+".key_store", d+".ks")
		}
		switch k.Intn(3) {
		case 0:
			put(file, d+".key_password", pw)
		case 1:
			args = append(args, "--"+d+".key_password", pw)
		case 2:
			write(filepath.Join(cwd, d+".secret"), []byte(pw))
			args = append(args, "--"+d+".key_secret", d+".secret")
		}
	}
	opt := k.Intn(4)
	for _, d := range []string{"src", "dst"} { // both sides have the same limit
		switch opt {
		case 0:
			put(file, d+".options", map[string]interface{}{"stepLimit": step})
		case 1:
			args = append(args, "--"+d+".options", fmt.Sprintf("stepLimit=%d", step))
		case 2:
			put(file, d+".options", map[string]interface{}{"stepLimit": 77})
			args = append(args, "--"+d+".options", fmt.Sprintf("stepLimit=%d", step))
		}
	}
	desc = append(desc, fmt.Sprintf("options %d", opt))
	bts, _ := json.Marshal(file)
	write(filepath.Join(cwd, "in", "conf.json"), bts)
	args = append(args, "--config", "in/conf.json")
	k.Input("%s; args %v env %v file %s", strings.Join(desc, " "), args, r.env, bts)
	for i := k.Intn(3); i > 0; i-- {
		wa.Step()
		wb.Step()
	}
	cmd := exec.Command(os.Getenv("VERIF_RELAY"), args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{"HOME=" + cwd, "PATH=/nonexistent"}, r.env...)
	var out safeBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	var once sync.Once
	stop := func() { once.Do(func() { cmd.Process.Kill(); <-done }) }
	defer stop()
	type way struct {
		w    *world.World
		n    *sim.IconNode
		from string
		used bool
	}
	ways := []way{{wa, b, sim.IconAddr(sec["dst"]), dir != "reverse"}, {wb, a, sim.IconAddr(sec["src"]), dir != "front"}}
	last, seen := time.Now(), 0
	for time.Since(last) < 60*time.Second {
		wa.Step()
		wb.Step()
		all, n := true, 0
		for _, x := range ways {
			if x.used {
				all = all && x.w.Done()
				n += len(x.w.V.Delivered())
			}
		}
		if n > seen {
			seen, last = n, time.Now()
		}
		if all {
			break
		}
		select {
		case <-done:
			k.Fail("ended", "the relay ended: %.1500s", out.String())
			return
		case <-time.After(5 * time.Millisecond):
		}
	}
	time.Sleep(30 * time.Millisecond)
	stop()
	text := out.String()
	if strings.Contains(text, "panic:") || strings.Contains(text, "fatal error") {
		k.Fail("crash", "%.3000s", text)
		return
	}
	for _, x := range ways {
		txs := x.n.Txs()
		if !x.used {
			if len(txs) > 0 {
				k.Fail("other-direction", "direction %s: %d transactions for the other direction", dir, len(txs))
			}
			continue
		}
		if sig, d := x.w.Check(true); sig != "" {
			k.Fail("undelivered", "%s %s: %.1500s", sig, d, text)
		}
		k.Count("messages", int64(len(x.w.V.Delivered())))
		for _, t := range txs {
			k.Count("transactions", 1)
			if t.From != x.from {
				k.Fail("sender", "a transaction comes from %s instead of %s", t.From, x.from)
			}
			if s, _ := t.Raw["stepLimit"].(string); opt < 3 && s != fmt.Sprintf("0x%x", step) {
				k.Fail("option", "a transaction has stepLimit %s instead of 0x%x", s, step)
			}
		}
	}
	for _, n := range []*sim.IconNode{a, b} {
		for _, pr := range n.ProblemList() {
			k.Fail("protocol", "%s", pr)
		}
	}
	k.Seen("%v", desc)
}
