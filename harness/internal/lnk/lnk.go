// Package lnk runs the link engine and the receivers of the repository in
// process, against the simulated chains and a destination with a chosen size
// limit, and records what reached the destination.
package lnk

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"

	"verifharness/internal/sim"
)

// Logger turns a fatal log line into a recorded stop of its goroutine.
type Logger struct {
	log.Logger
	s *stop
}

type stop struct {
	mu   sync.Mutex
	ch   chan struct{}
	text string
	done bool
}

func (s *stop) set(t string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.done {
		s.done, s.text = true, t
		close(s.ch)
	}
}

var quiet = func() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	l.SetConsoleLevel(log.PanicLevel)
	return l
}()

func init() { log.SetGlobalLogger(quiet) }

// Quiet gives a logger that drops everything below panic.
func Quiet() log.Logger { return quiet }

func NewLogger() *Logger {
	return &Logger{Logger: quiet, s: &stop{ch: make(chan struct{})}}
}

func (l *Logger) WithFields(log.Fields) log.Logger { return l }
func (l *Logger) SetFileWriter(io.Writer) error    { return nil }

func (l *Logger) dead(s string) {
	l.s.set(s)
	runtime.Goexit()
}
func (l *Logger) Panic(a ...interface{})            { l.dead(fmt.Sprint(a...)) }
func (l *Logger) Panicln(a ...interface{})          { l.dead(fmt.Sprint(a...)) }
func (l *Logger) Panicf(f string, a ...interface{}) { l.dead(fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...interface{})            { l.dead(fmt.Sprint(a...)) }
func (l *Logger) Fatalln(a ...interface{})          { l.dead(fmt.Sprint(a...)) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.dead(fmt.Sprintf(f, a...)) }

// Dead is closed when the logger was asked to panic or exit.
func (l *Logger) Dead() (<-chan struct{}, func() string) {
	return l.s.ch, func() string { l.s.mu.Lock(); defer l.s.mu.Unlock(); return l.s.text }
}

// Tx is one relay message that reached the sender.
type Tx struct {
	Size int
	Code int
	Why  string
	Msgs int // messages delivered by it
	Lost bool
}

// Sender is a model destination: it executes relay messages in order against
// a verifier and reports the results like the real senders do, each from its
// own goroutine.
type Sender struct {
	V     sim.Verifier
	Limit int
	// Fate decides about the n-th relay message: "" execute, "crash" the relay
	// stops before it is sent, "crashafter" it is executed and the relay stops,
	// "fail" rejected with code, "dup" executed twice.
	Fate func(n int) (string, int)
	// StatusErr makes the n-th status query fail.
	StatusErr func(n int) bool
	Before    func(n int) // called before executing the n-th message
	Jitter    func() time.Duration

	mu     sync.Mutex
	sc     chan types.SenderMessage
	q      chan func()
	txs    []Tx
	stat   int
	gone   chan struct{}
	once   sync.Once
	Crash  chan struct{}
	crOnce sync.Once
	last   time.Time
}

func NewSender(v sim.Verifier, limit int) *Sender {
	s := &Sender{V: v, Limit: limit, sc: make(chan types.SenderMessage), q: make(chan func(), 100000),
		gone: make(chan struct{}), Crash: make(chan struct{}), last: time.Now()}
	go func() {
		for {
			select {
			case f := <-s.q:
				f()
			case <-s.gone:
				return
			}
		}
	}()
	return s
}

func (s *Sender) Start() (<-chan types.SenderMessage, error) { return s.sc, nil }
func (s *Sender) Stop()                                      {}
func (s *Sender) Close()                                     { s.once.Do(func() { close(s.gone) }) }
func (s *Sender) GetMarginForLimit() int64                   { return 0 }
func (s *Sender) TxSizeLimit() int                           { return s.Limit }

func (s *Sender) GetStatus() (*types.BMCLinkStatus, error) {
	s.mu.Lock()
	s.stat++
	n := s.stat
	s.mu.Unlock()
	if s.StatusErr != nil && s.StatusErr(n) {
		return nil, errors.New("injected status failure")
	}
	st := s.V.Status()
	ls := &types.BMCLinkStatus{TxSeq: st.TxSeq, RxSeq: st.RxSeq}
	ls.Verifier.Height = st.Height
	ls.Verifier.Extra = st.Extra
	return ls, nil
}

func (s *Sender) Txs() []Tx {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Tx{}, s.txs...)
}

// Drain waits until every relay message accepted so far is executed.
func (s *Sender) Drain() {
	ch := make(chan struct{})
	s.q <- func() { close(ch) }
	<-ch
}

// Idle tells how long nothing happened at the destination.
func (s *Sender) Idle() time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	return time.Since(s.last)
}

// CrashNow ends the relay's life at this moment.
func (s *Sender) CrashNow() { s.crash() }

func (s *Sender) crash() { s.crOnce.Do(func() { close(s.Crash) }) }

func (s *Sender) Relay(rm types.RelayMessage) (int, error) {
	select {
	case <-s.Crash:
		<-make(chan struct{})
	default:
	}
	s.mu.Lock()
	n := len(s.txs)
	s.txs = append(s.txs, Tx{Size: len(rm.Bytes()), Lost: true})
	s.last = time.Now()
	s.mu.Unlock()
	fate, code := "", 0
	if s.Fate != nil {
		fate, code = s.Fate(n)
	}
	if fate == "crash" {
		s.crash()
		<-make(chan struct{})
	}
	msg := append([]byte{}, rm.Bytes()...)
	id := rm.Id()
	s.q <- func() {
		if s.Jitter != nil {
			time.Sleep(s.Jitter())
		}
		if s.Before != nil {
			s.Before(n)
		}
		why := "injected"
		was := len(s.V.Delivered())
		if fate != "fail" {
			code, why = s.V.Handle(msg)
			if fate == "dup" {
				s.V.Handle(msg)
			}
		}
		now := len(s.V.Delivered())
		s.mu.Lock()
		s.txs[n].Code, s.txs[n].Why, s.txs[n].Lost, s.txs[n].Msgs = code, why, false, now-was
		s.last = time.Now()
		s.mu.Unlock()
		if fate == "crashafter" {
			s.crash()
			return
		}
		go func() {
			if s.Jitter != nil {
				time.Sleep(s.Jitter())
			}
			if code != 0 {
				s.send(&types.RelayResult{Id: id, Err: errors.Code(code)})
			}
			if ls, err := s.GetStatus(); err == nil {
				s.send(ls)
			}
		}()
	}
	if fate == "crashafter" {
		<-make(chan struct{})
	}
	return id, nil
}

func (s *Sender) send(m types.SenderMessage) {
	select {
	case s.sc <- m:
	case <-s.gone:
	case <-s.Crash:
	}
}

// Run is a running link.
type Run struct {
	L    *Logger
	done chan struct{}
	mu   sync.Mutex
	err  error
}

// Start runs a link with the receiver and sender until it returns. Making the
// receiver may stop the relay too.
func Start(src, dst string, l *Logger, r func() link.Receiver, s types.Sender) *Run {
	cfg := &chain.Config{}
	cfg.Src.Address, cfg.Dst.Address = types.BtpAddress(src), types.BtpAddress(dst)
	run := &Run{L: l, done: make(chan struct{})}
	go func() {
		err := link.NewLink(cfg, r(), l).Start(s)
		run.mu.Lock()
		run.err = err
		run.mu.Unlock()
		close(run.done)
	}()
	return run
}

// Stopped tells whether the link gave up, and why.
func (r *Run) Stopped() (bool, string) {
	dead, text := r.L.Dead()
	select {
	case <-dead:
		return true, "panic: " + text()
	default:
	}
	select {
	case <-r.done:
		r.mu.Lock()
		defer r.mu.Unlock()
		return true, fmt.Sprintf("error: %v", r.err)
	default:
	}
	return false, ""
}

// StoppedNil tells whether the link returned without an error.
func (r *Run) StoppedNil() bool {
	select {
	case <-r.done:
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.err == nil
	default:
		return false
	}
}

func JitterFn(r *rand.Rand, max time.Duration) func() time.Duration {
	var mu sync.Mutex
	return func() time.Duration {
		mu.Lock()
		defer mu.Unlock()
		if max <= 0 || r.Intn(3) == 0 {
			return 0
		}
		return time.Duration(r.Int63n(int64(max)))
	}
}
