package sim

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"
	"golang.org/x/crypto/scrypt"

	"verifharness/internal/mbtx"
)

var quietLog = stdlog.New(io.Discard, "", 0)

// Key derives a deterministic private key.
func Key(r *rand.Rand) *ecdsa.PrivateKey {
	for {
		b := make([]byte, 32)
		r.Read(b)
		if k, err := crypto.ToECDSA(b); err == nil {
			return k
		}
	}
}

func IconAddr(k *ecdsa.PrivateKey) string { return IconAddress(crypto.FromECDSAPub(&k.PublicKey)) }

// IconKeyStore makes an ICON key store with light parameters.
func IconKeyStore(k *ecdsa.PrivateKey, pw string) json.RawMessage {
	salt := []byte("saltsalt")
	key, err := scrypt.Key([]byte(pw), salt, 2, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	blk, _ := aes.NewCipher(key[:16])
	iv := bytes.Repeat([]byte{7}, 16)
	sec := crypto.FromECDSA(k)
	ct := make([]byte, len(sec))
	cipher.NewCTR(blk, iv).XORKeyStream(ct, sec)
	b, _ := json.Marshal(map[string]interface{}{
		"address": IconAddr(k), "id": uuid.New().String(), "version": 3, "coinType": "icx",
		"crypto": map[string]interface{}{
			"cipher": "aes-128-ctr", "cipherparams": map[string]string{"iv": hex.EncodeToString(iv)},
			"ciphertext": hex.EncodeToString(ct), "kdf": "scrypt",
			"kdfparams": map[string]interface{}{"dklen": 32, "n": 2, "r": 8, "p": 1, "salt": hex.EncodeToString(salt)},
			"mac":       hex.EncodeToString(mbtx.Keccak(key[16:32], ct)),
		}})
	return b
}

// EvmKeyStore makes an Ethereum key store with light parameters.
func EvmKeyStore(k *ecdsa.PrivateKey, pw string) json.RawMessage {
	b, err := keystore.EncryptKey(&keystore.Key{Id: uuid.New(), Address: crypto.PubkeyToAddress(k.PublicKey), PrivateKey: k}, pw, 2, 1)
	if err != nil {
		panic(err)
	}
	return b
}

// Side is one end of the relay configuration.
type Side struct {
	Address, Endpoint string
	KeyStore          json.RawMessage
	Password          string
	Bridge            bool
	Options           map[string]interface{}
}

func (s Side) cfg() map[string]interface{} {
	m := map[string]interface{}{"address": s.Address, "endpoint": s.Endpoint, "key_store": s.KeyStore,
		"key_password": s.Password, "bridge_mode": s.Bridge}
	if s.Options != nil {
		m["options"] = s.Options
	}
	return m
}

// Relay is a relay process under supervision.
type Relay struct {
	Bin       string
	Dir       string
	Src, Dst  Side
	Direction string
	LogLevel  string
	Env       []string

	mu    sync.Mutex
	cmd   *exec.Cmd
	out   *tail
	done  chan struct{}
	exit  int
	sig   bool
	Start int
}

type tail struct {
	mu sync.Mutex
	b  []byte
	n  int
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n += len(p)
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<16:]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (r *Relay) Launch() {
	if err := os.MkdirAll(r.Dir, 0755); err != nil {
		panic(err)
	}
	lvl := r.LogLevel
	if lvl == "" {
		lvl = "error"
	}
	cfg := map[string]interface{}{"src": r.Src.cfg(), "dst": r.Dst.cfg(), "direction": r.Direction, "log_level": lvl,
		"console_level": lvl, "base_dir": "data"}
	b, _ := json.MarshalIndent(cfg, "", " ")
	p := filepath.Join(r.Dir, "config.json")
	if err := os.WriteFile(p, b, 0600); err != nil {
		panic(err)
	}
	cmd := exec.Command(r.Bin, "start", "--config", p)
	cmd.Dir = r.Dir
	out := &tail{}
	cmd.Stdout, cmd.Stderr = out, out
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=4")
	cmd.Env = append(cmd.Env, r.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	done := make(chan struct{})
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	r.mu.Lock()
	r.cmd, r.out, r.done, r.exit, r.sig = cmd, out, done, 0, false
	r.Start++
	r.mu.Unlock()
	go func() {
		cmd.Wait()
		r.mu.Lock()
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		r.exit, r.sig = ws.ExitStatus(), ws.Signaled()
		r.mu.Unlock()
		close(done)
	}()
}

func (r *Relay) Done() <-chan struct{} { r.mu.Lock(); defer r.mu.Unlock(); return r.done }

func (r *Relay) Alive() bool {
	select {
	case <-r.Done():
		return false
	default:
		return true
	}
}

// Exit gives the exit status of a finished relay.
func (r *Relay) Exit() (code int, signaled bool, out string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.exit, r.sig, r.out.String()
}

func (r *Relay) Output() string { r.mu.Lock(); o := r.out; r.mu.Unlock(); return o.String() }

func (r *Relay) Signal(s syscall.Signal) {
	r.mu.Lock()
	c := r.cmd
	r.mu.Unlock()
	if c != nil && c.Process != nil {
		c.Process.Signal(s)
	}
}

func (r *Relay) Kill() {
	r.mu.Lock()
	c, d := r.cmd, r.done
	r.mu.Unlock()
	if c == nil {
		return
	}
	c.Process.Kill()
	select {
	case <-d:
	case <-time.After(20 * time.Second):
		panic("sim: relay process does not die")
	}
}

// Crash describes an unexpected crash in out ("" if there is none): a runtime
// error, a Go panic or a fatal error, with the innermost repository frame.
func Crash(out string) (kind, site, text string) {
	for _, m := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE"} {
		i := strings.Index(out, m)
		if i < 0 {
			continue
		}
		text = out[i:]
		if len(text) > 3000 {
			text = text[:3000]
		}
		kind = strings.SplitN(text, "\n", 2)[0]
		for _, l := range strings.Split(out[i:], "\n") {
			if strings.HasPrefix(l, "github.com/icon-project/btp/") || strings.HasPrefix(l, "main.") {
				if j := strings.LastIndex(l, "("); j > 0 {
					l = l[:j]
				}
				l = strings.TrimPrefix(l, "github.com/icon-project/btp/")
				if strings.HasPrefix(l, "common/log.") || strings.HasPrefix(l, "common/errors.") {
					continue
				}
				site = l
				break
			}
		}
		return
	}
	return
}

var _ = fmt.Sprint
