package main

import (
	stderrors "errors"
	"fmt"
	"strings"

	pkgerrors "github.com/pkg/errors"

	"github.com/icon-project/btp/common/errors"

	"verifharness/internal/mon"
)

func init() { props["E01"] = e01 }

// own types of errors, as callers define them
type causeErr struct {
	msg string
	c   error
}

func (e *causeErr) Error() string { return e.msg }
func (e *causeErr) Cause() error  { return e.c }

type unwrapErr struct {
	msg string
	c   error
}

func (e *unwrapErr) Error() string { return e.msg }
func (e *unwrapErr) Unwrap() error { return e.c }

type plainErr struct{ msg string }

func (e *plainErr) Error() string { return e.msg }

type coderErr struct {
	msg  string
	code errors.Code
}

func (e coderErr) Error() string          { return e.msg }
func (e coderErr) ErrorCode() errors.Code { return e.code }

// level is the model of one error of a chain.
type elevel struct {
	err   error
	msg   string // its own text
	code  errors.Code
	coded bool
	text  string // of %v
	alien bool   // its text is that of another library
}

var codes = []errors.Code{0, 1, 2, 3, 4, 5, 6, 25, 26, 27, 999, 1000, 1001, 1500, 2000, 9999, 10000, -1, 123456}

func e01(c *mon.Ctx) {
	c.Rule("random chains of coded, wrapped and foreign errors against a list model; a run is distinct by its chain")
	c.RunP("chain", c.N(600000, 8000000), 8, e01chain)
	c.Run("nothing", 1, e01nothing)
}

func e01chain(k *mon.Case) {
	var ch []elevel // innermost first
	desc := ""
	n := 0
	name := func(s string) string {
		n++
		r := []string{"", " %d %s", "ü|", "a:b", "\n", "%"}[k.Intn(6)]
		return fmt.Sprintf("%s#%d%s", s, n, r)
	}
	code := func() errors.Code { return codes[k.Intn(len(codes))] }
	push := func(e error, msg string, cd errors.Code, coded bool) {
		t := msg
		if coded {
			t = fmt.Sprintf("E%04d:%s", int(cd), msg)
		}
		ch = append(ch, elevel{e, msg, cd, coded, t, false})
	}
	cd := code()
	m := name("leaf")
	lit := strings.ReplaceAll(m, "%", "%%")
	switch i := k.Intn(10); i {
	case 0:
		push(errors.New(m), m, 0, false)
	case 1:
		push(errors.Errorf("%s%d", m, 3), m+"3", 0, false)
	case 2:
		push(errors.Errorc(cd, m), m, cd, true)
	case 3:
		push(errors.Errorcf(cd, lit+"%d", 4), m+"4", cd, true)
	case 4:
		push(errors.NewBase(cd, m), m, cd, true)
	case 5:
		push(stderrors.New(m), m, 0, false)
	case 6:
		push(cd.New(m), m, cd, true)
	case 7:
		push(cd.Errorf("%s", m), m, cd, true)
	case 8:
		push(&plainErr{m}, m, 0, false)
	case 9:
		push(coderErr{m, cd}, m, cd, true)
		ch[0].text = m
	}
	desc += fmt.Sprintf("%T(%d)", ch[0].err, ch[0].code)
	for i := k.Intn(6); i > 0; i-- {
		in := ch[len(ch)-1]
		cd := code()
		m := name("wrap")
		lit := strings.ReplaceAll(m, "%", "%%")
		var what string
		switch k.Intn(9) {
		case 0:
			push(errors.Wrap(in.err, m), m, 0, false)
			what = "Wrap"
		case 1:
			push(errors.Wrapf(in.err, lit+"%s", "x"), m+"x", 0, false)
			what = "Wrapf"
		case 2:
			push(errors.Wrapc(in.err, cd, m), m, cd, true)
			what = "Wrapc"
		case 3:
			push(errors.Wrapcf(in.err, cd, "%s-%s", m, "y"), m+"-y", cd, true)
			what = "Wrapcf"
		case 4:
			if k.Intn(2) == 0 {
				push(cd.Wrap(in.err, m), m, cd, true)
			} else {
				push(cd.Wrapf(in.err, lit), m, cd, true)
			}
			what = "Code.Wrap"
		case 5:
			push(errors.WithCode(in.err, cd), in.msg, cd, true)
			ch[len(ch)-1].alien = in.alien
			what = "WithCode"
		case 6:
			e := errors.WithStack(in.err)
			push(e, in.msg, 0, false)
			ch[len(ch)-1].text = "" // printed as the inner one
			ch[len(ch)-1].alien = in.alien
			what = "WithStack"
		case 7:
			if k.Intn(2) == 0 {
				push(&causeErr{m, in.err}, m, 0, false)
			} else {
				push(&unwrapErr{m, in.err}, m, 0, false)
			}
			what = "own"
		case 8:
			e := pkgerrors.WithMessage(in.err, m)
			if k.Intn(2) == 0 {
				e = fmt.Errorf("%s%w", m, in.err)
			}
			push(e, "", 0, false)
			ch[len(ch)-1].alien = true
			what = "foreign"
		}
		desc += fmt.Sprintf(" %s(%d)", what, ch[len(ch)-1].code)
	}
	top := ch[len(ch)-1]
	k.Input("%s", desc)
	want, coded := errors.UnknownError, false
	var wantErr error
	for i := len(ch) - 1; i >= 0; i-- {
		if ch[i].coded {
			want, coded, wantErr = ch[i].code, true, ch[i].err
			break
		}
	}
	if got := errors.CodeOf(top.err); got != want {
		k.Fail("code", "code of %s is %d, want %d", desc, got, want)
	}
	co, ok := errors.CoderOf(top.err)
	if ok != coded || (ok && (co.ErrorCode() != want || error(co) != wantErr)) {
		k.Fail("coder", "%s: %v %v, want %v", desc, co, ok, wantErr)
	}
	for _, c := range []errors.Code{want, cd, 0, 1000} {
		if c.Equals(top.err) != (c == want) {
			k.Fail("equals", "%s: %d.Equals is %v", desc, c, c.Equals(top.err))
		}
		if errors.NewBase(c, "z").Equals(top.err) != (c == want) {
			k.Fail("equals", "%s: base of %d", desc, c)
		}
	}
	for i, l := range ch {
		if !errors.Is(top.err, l.err) {
			k.Fail("is", "%s: not caused by its level %d (%T)", desc, i, l.err)
		}
	}
	for _, o := range []error{errors.New("leaf#1"), errors.ErrUnknown, errors.ErrNotFound, &plainErr{"leaf#1"}, nil} {
		if errors.Is(top.err, o) {
			k.Fail("is-other", "%s: caused by %v", desc, o)
		}
	}
	var pe *plainErr
	_, isPlain := ch[0].err.(*plainErr)
	if got := errors.AsValue(&pe, top.err); got != isPlain || (got && error(pe) != ch[0].err) {
		k.Fail("as", "%s: found a plain error: %v", desc, got)
	}
	var ue *unwrapErr
	var wantUe *unwrapErr
	for i := len(ch) - 1; i >= 0 && wantUe == nil; i-- {
		wantUe, _ = ch[i].err.(*unwrapErr)
	}
	if got := errors.AsValue(&ue, top.err); got != (wantUe != nil) || ue != wantUe {
		k.Fail("as", "%s: found %v, want %v", desc, ue, wantUe)
	}
	if !top.alien && top.err.Error() != top.msg {
		k.Fail("message", "%s: %q, want %q", desc, top.err.Error(), top.msg)
	}
	if top.text != "" && !top.alien {
		if got := fmt.Sprintf("%v", top.err); got != top.text {
			k.Fail("text", "%s: %q, want %q", desc, got, top.text)
		}
		if got := fmt.Sprintf("%s", top.err); got != top.text {
			k.Fail("text", "%s: %q, want %q", desc, got, top.text)
		}
	}
	full := fmt.Sprintf("%+v", top.err)
trace:
	for i := len(ch) - 1; i >= 0 && !ch[i].alien; i-- {
		if !strings.Contains(full, ch[i].msg) {
			k.Fail("trace", "%s: the trace lacks %q: %s", desc, ch[i].msg, full)
		}
		switch ch[i].err.(type) {
		case *causeErr, *unwrapErr, coderErr:
			break trace // own errors do not print what they wrap
		}
	}
	k.Count("levels", int64(len(ch)))
	k.Seen("%s", desc)
}

func e01nothing(k *mon.Case) {
	k.Input("no error")
	if c := errors.CodeOf(nil); c != errors.UnknownError {
		k.Fail("nil-code", "%d", c)
	}
	if _, ok := errors.CoderOf(nil); ok {
		k.Fail("nil-coder", "found one")
	}
	if errors.UnknownError.Equals(nil) || errors.ErrUnknown.Equals(nil) {
		k.Fail("nil-equals", "the unknown code equals no error")
	}
	for i, e := range []error{errors.Wrap(nil, "a"), errors.Wrapf(nil, "a"), &unwrapErr{"a", nil}, &causeErr{"a", nil}} {
		if c := errors.CodeOf(e); c != errors.UnknownError {
			k.Fail("nil-wrapped", "%d: %d", i, c)
		}
		if errors.Is(e, errors.ErrUnknown) {
			k.Fail("nil-wrapped", "%d is unknown", i)
		}
	}
	if c := errors.CodeOf(errors.Wrapc(nil, 7, "a")); c != 7 {
		k.Fail("nil-wrapped", "%d", c)
	}
	if errors.WithStack(nil) != nil {
		k.Fail("nil-stack", "an error of nothing")
	}
	k.Seen("nil")
}
