package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/icon-project/btp/chain/ethbr/client"
	iclient "github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/intconv"
	"github.com/icon-project/btp/common/types"

	"verifharness/internal/mbtx"
	"verifharness/internal/mon"
	"verifharness/internal/rlpx"
)

// edge is the i-th number of a systematic sweep around the powers of two.
func edge(i int) *big.Int {
	v := new(big.Int).Lsh(big.NewInt(1), uint(i/6))
	v.Add(v, big.NewInt(int64(i%3)-1))
	if i/3%2 == 1 {
		v.Neg(v)
	}
	return v
}

// intBytes: numbers and their two's complement bytes.
func intBytes(num func(k *mon.Case) *big.Int) func(k *mon.Case) {
	return func(k *mon.Case) {
		v := num(k)
		k.Input("%v", v)
		want := rlpx.Int(v)
		if got := intconv.BigIntToBytes(v); !bytes.Equal(got, want) {
			k.Fail("big-to-bytes", "%v: %x instead of %x", v, got, want)
		}
		var back big.Int
		back.SetInt64(k.Int63()) // a used variable
		if intconv.BigIntSetBytes(&back, want); back.Cmp(v) != 0 {
			k.Fail("big-from-bytes", "%x: %v instead of %v", want, &back, v)
		}
		pad := append([]byte{}, want...)
		for i := k.Intn(5); i > 0; i-- {
			f := byte(0)
			if v.Sign() < 0 {
				f = 0xff
			}
			pad = append([]byte{f}, pad...)
		}
		if intconv.BigIntSetBytes(&back, pad); back.Cmp(v) != 0 {
			k.Fail("big-from-padded-bytes", "%x: %v instead of %v", pad, &back, v)
		}
		if v.IsInt64() {
			x := v.Int64()
			if got := intconv.Int64ToBytes(x); !bytes.Equal(got, want) {
				k.Fail("int64-to-bytes", "%d: %x instead of %x", x, got, want)
			}
			if got := intconv.BytesToInt64(want); got != x {
				k.Fail("int64-from-bytes", "%x: %d instead of %d", want, got, x)
			}
			if len(pad) <= 8 {
				if got := intconv.BytesToInt64(pad); got != x {
					k.Fail("int64-from-padded-bytes", "%x: %d instead of %d", pad, got, x)
				}
			}
			k.Count("int64", 1)
		}
		if v.IsUint64() {
			x := v.Uint64()
			if got := intconv.Uint64ToBytes(x); !bytes.Equal(got, want) {
				k.Fail("uint64-to-bytes", "%d: %x instead of %x", x, got, want)
			}
			if got := intconv.BytesToUint64(want); got != x {
				k.Fail("uint64-from-bytes", "%x: %d instead of %d", want, got, x)
			}
			sz := v.Bytes()
			if len(sz) == 0 {
				sz = []byte{0}
			}
			if got := intconv.SizeToBytes(x); !bytes.Equal(got, sz) {
				k.Fail("size-to-bytes", "%d: %x instead of %x", x, got, sz)
			}
			if got := intconv.BytesToSize(sz); got != x {
				k.Fail("size-from-bytes", "%x: %d instead of %d", sz, got, x)
			}
			k.Count("uint64", 1)
		}
		// what a caller does to the bytes it got changes no later result
		for _, f := range []func() []byte{func() []byte { return intconv.BigIntToBytes(v) }, func() []byte { return intconv.Int64ToBytes(v.Int64()) },
			func() []byte { return intconv.Uint64ToBytes(v.Uint64()) }, func() []byte { return intconv.SizeToBytes(v.Uint64()) }} {
			a := f()
			keep := append([]byte{}, a...)
			for i := range a {
				a[i] ^= 0x55
			}
			_ = append(a, 1, 2, 3)
			if b := f(); !bytes.Equal(b, keep) {
				k.Fail("shared-bytes", "%v: %x after the former %x was changed", v, b, keep)
			}
		}
		if v.IsInt64() && v.Int64() == int64(int16(v.Int64())) {
			if got := (common.HexInt16{Value: int16(v.Int64())}).Bytes(); !bytes.Equal(got, want) {
				k.Fail("hexint16-bytes", "%v: %x instead of %x", v, got, want)
			}
		}
		if v.IsInt64() && v.Int64() == int64(uint16(v.Int64())) {
			if got := (common.HexUint16{Value: uint16(v.Int64())}).Bytes(); !bytes.Equal(got, want) {
				k.Fail("hexuint16-bytes", "%v: %x instead of %x", v, got, want)
			}
		}
		var h common.HexInt
		h.Set(v)
		if got := h.Bytes(); !bytes.Equal(got, want) {
			k.Fail("hexint-bytes", "%v: %x instead of %x", v, got, want)
		}
		var h2 common.HexInt
		if h2.SetBytes(want); h2.Cmp(v) != 0 {
			k.Fail("hexint-set-bytes", "%x: %v instead of %v", want, &h2.Int, v)
		}
		cl := h.Clone()
		cl.Add(&cl.Int, big.NewInt(1))
		if h.Cmp(v) != 0 {
			k.Fail("hexint-clone", "a clone shares its value")
		}
		k.Seen("%v", v)
	}
}

func hexText(v *big.Int) string {
	if v.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(v).Text(16)
	}
	return "0x" + v.Text(16)
}

// intText: numbers and their text in every type that carries one.
func intText(num func(k *mon.Case) *big.Int) func(k *mon.Case) {
	return func(k *mon.Case) {
		v := num(k)
		k.Input("%v", v)
		want := hexText(v)
		if got := intconv.FormatBigInt(v); got != want {
			k.Fail("format-big", "%v: %s instead of %s", v, got, want)
		}
		texts := []string{want}
		if k.Intn(2) == 0 {
			texts = append(texts, strings.Replace(want, "0x", "0x0", 1), strings.Replace(want, "0x", "0x000", 1))
		}
		js := func(s string) []byte { b, _ := json.Marshal(s); return b }
		for _, s := range texts {
			var x big.Int
			x.SetInt64(k.Int63())
			if err := intconv.ParseBigInt(&x, s); err != nil || x.Cmp(v) != 0 {
				k.Fail("parse-big", "%s: %v %v", s, &x, err)
			}
			var h common.HexInt
			h.SetInt64(k.Int63())
			if err := json.Unmarshal(js(s), &h); err != nil || h.Cmp(v) != 0 {
				k.Fail("hexint-json", "%s: %v %v", s, &h.Int, err)
			}
			if y, err := iclient.HexInt(s).BigInt(); err != nil || y.Cmp(v) != 0 {
				k.Fail("client-hexint-big", "%s: %v %v", s, y, err)
			}
			fits := func(bits uint, signed bool) bool {
				lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
				if signed {
					hi.Rsh(hi, 1)
					lo.Neg(hi)
				}
				return v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
			}
			check := func(name string, ok bool, err error, got interface{}) {
				if ok {
					k.Count("fitting", 1)
				} else {
					k.Count("not_fitting", 1)
				}
				if ok && (err != nil || fmt.Sprint(got) != v.String()) {
					k.Fail(name, "%s: %v err=%v instead of %v", s, got, err, v)
				}
				if !ok && err == nil {
					k.Fail(name+"-range", "%s: %v although it does not fit", s, got)
				}
			}
			for _, bits := range []int{8, 16, 32, 64} {
				a, err := intconv.ParseInt(s, bits)
				check(fmt.Sprintf("parse-int%d", bits), fits(uint(bits), true), err, a)
				b, err := intconv.ParseUint(s, bits)
				check(fmt.Sprintf("parse-uint%d", bits), fits(uint(bits), false), err, b)
			}
			a, err := iclient.HexInt(s).Value()
			check("client-hexint", fits(64, true), err, a)
			ai, err := iclient.HexInt(s).Int()
			check("client-hexint-int", fits(32, true), err, ai)
			if v.Sign() >= 0 {
				a, err := client.HexInt(s).Value()
				check("eth-hexint", fits(64, true), err, a)
				ai, err := client.HexInt(s).Int()
				check("eth-hexint-int", fits(32, true), err, ai)
			}
			var i16 common.HexInt16
			err = json.Unmarshal(js(s), &i16)
			check("hexint16", fits(16, true), err, i16.Value)
			var u16 common.HexUint16
			err = json.Unmarshal(js(s), &u16)
			check("hexuint16", fits(16, false), err, u16.Value)
			var i32 common.HexInt32
			err = json.Unmarshal(js(s), &i32)
			check("hexint32", fits(32, true), err, i32.Value)
			var u32 common.HexUint32
			err = json.Unmarshal(js(s), &u32)
			check("hexuint32", fits(32, false), err, u32.Value)
			var i64 common.HexInt64
			err = json.Unmarshal(js(s), &i64)
			check("hexint64", fits(64, true), err, i64.Value)
			var u64 common.HexUint64
			err = json.Unmarshal(js(s), &u64)
			check("hexuint64", fits(64, false), err, u64.Value)
			mar := func(name string, ok bool, x interface{}) {
				if !ok {
					return
				}
				b, err := json.Marshal(x)
				if err != nil || !bytes.Equal(b, js(want)) {
					k.Fail(name+"-marshal", "%v: %s err=%v instead of %s", v, b, err, js(want))
				}
			}
			mar("hexint16", fits(16, true), i16)
			mar("hexuint16", fits(16, false), u16)
			mar("hexint32", fits(32, true), i32)
			mar("hexuint32", fits(32, false), &u32)
			mar("hexint64", fits(64, true), &i64)
			mar("hexuint64", fits(64, false), u64)
			mar("hexint", true, h)
		}
		if v.IsInt64() {
			if got := intconv.FormatInt(v.Int64()); got != want {
				k.Fail("format-int", "%v: %s instead of %s", v, got, want)
			}
			if got := string(iclient.NewHexInt(v.Int64())); got != want {
				k.Fail("client-new-hexint", "%v: %s instead of %s", v, got, want)
			}
		}
		if v.IsUint64() {
			if got := intconv.FormatUint(v.Uint64()); got != want {
				k.Fail("format-uint", "%v: %s instead of %s", v, got, want)
			}
		}
		// plain JSON numbers
		if v.IsInt64() && v.Int64() < math.MaxInt32 && v.Int64() > math.MinInt32 {
			var i64 common.HexInt64
			if err := json.Unmarshal([]byte(v.String()), &i64); err != nil || i64.Value != v.Int64() {
				k.Fail("hexint64-number", "%v: %d %v", v, i64.Value, err)
			}
			var h common.HexInt
			if err := json.Unmarshal([]byte(v.String()), &h); err != nil || h.Cmp(v) != 0 {
				k.Fail("hexint-number", "%v: %v %v", v, &h.Int, err)
			}
		}
		k.Seen("%v", v)
	}
}

// badText: what is not a number is refused.
func badText(k *mon.Case) {
	g := gen{k, false}
	base := hexText(g.big())
	var s string
	switch k.Intn(5) {
	case 0:
		s = base + string([]rune("g zxZ\x00-+.,é")[k.Intn(11)])
	case 1:
		i := k.Intn(len(base)-1) + 1
		s = base[:i] + string([]rune("gz -.,+é")[k.Intn(8)]) + base[i:]
	case 2:
		s = "0x"
	case 3:
		s = []string{"-0x", "--0x1", "0x-1", "+-1", "0x0x1", "x1", "0xx", "hello"}[k.Intn(8)]
	case 4:
		s = "0x" + g.str() + "!"
	}
	k.Input("%q", s)
	k.Seen("%s", s)
	try := func(name string, err error, got interface{}) {
		k.Count("refusals", 1)
		if err == nil {
			k.Fail(name, "%q accepted as %v", s, got)
		}
	}
	var b big.Int
	try("bad-big", intconv.ParseBigInt(&b, s), &b)
	a, err := intconv.ParseInt(s, 64)
	try("bad-int", err, a)
	u, err := intconv.ParseUint(s, 64)
	try("bad-uint", err, u)
	js, _ := json.Marshal(s)
	var h common.HexInt
	try("bad-hexint", json.Unmarshal(js, &h), h)
	var h64 common.HexInt64
	try("bad-hexint64", json.Unmarshal(js, &h64), h64)
	// other JSON than text and numbers
	o := []string{"true", "false", "[1]", "{}", `{"a":1}`, "1.5", "-0.5", `["0x1"]`, "1e-3"}[k.Intn(9)]
	for name, x := range map[string]interface{}{"hexint": &common.HexInt{}, "hexint16": &common.HexInt16{}, "hexuint16": &common.HexUint16{},
		"hexint32": &common.HexInt32{}, "hexuint32": &common.HexUint32{}, "hexint64": &common.HexInt64{}, "hexuint64": &common.HexUint64{},
		"hexbytes": &common.HexBytes{}, "rawhexbytes": &common.RawHexBytes{}} {
		k.Count("refusals", 1)
		if err := json.Unmarshal([]byte(o), x); err == nil {
			k.Fail("bad-json-"+name, "%s accepted as %v", o, x)
		}
	}
	hv, err := iclient.HexInt(s).Value()
	try("bad-client", err, hv)
	ev, err := client.HexInt(s).Value()
	if !strings.HasPrefix(s, "0x-") && !strings.HasPrefix(s, "0x+") && s != "" { // ParseInt takes a sign after the prefix
		try("bad-eth", err, ev)
	}
}

// hexBytes: bytes and their text.
func hexBytes(k *mon.Case) {
	g := gen{k, false}
	b := g.bytes(g.size())
	want := hex.EncodeToString(b)
	k.Input("%d bytes", len(b))
	k.Seen("%s", want)
	js, err := json.Marshal(common.HexBytes(b))
	if err != nil || string(js) != `"0x`+want+`"` {
		k.Fail("hexbytes-marshal", "%s %v", js, err)
	}
	var x common.HexBytes = g.bytes(k.Intn(3))
	if err := json.Unmarshal(js, &x); err != nil || !bytes.Equal(x.Bytes(), b) || x == nil {
		k.Fail("hexbytes-unmarshal", "%s: %x %v", js, []byte(x), err)
	}
	if s := common.HexBytes(b).String(); s != "0x"+want {
		k.Fail("hexbytes-string", "%s", s)
	}
	js, err = json.Marshal(common.RawHexBytes(b))
	if err != nil || string(js) != `"`+want+`"` {
		k.Fail("rawhexbytes-marshal", "%s %v", js, err)
	}
	var y common.RawHexBytes = g.bytes(k.Intn(3))
	if err := json.Unmarshal(js, &y); err != nil || !bytes.Equal(y.Bytes(), b) || y == nil {
		k.Fail("rawhexbytes-unmarshal", "%s: %x %v", js, []byte(y), err)
	}
	if n, err := json.Marshal(common.HexBytes(nil)); err != nil || string(n) != "null" {
		k.Fail("hexbytes-null", "%s %v", n, err)
	}
	if json.Unmarshal([]byte("null"), &x) != nil || x != nil {
		k.Fail("hexbytes-null", "null gives %x", []byte(x))
	}
	if json.Unmarshal([]byte("null"), &y) != nil || y != nil {
		k.Fail("rawhexbytes-null", "null gives %x", []byte(y))
	}
	if v, err := iclient.NewHexBytes(b).Value(); err != nil || !bytes.Equal(v, b) {
		k.Fail("client-hexbytes", "%x %v", v, err)
	}
	bad := want + "0"
	if k.Intn(2) == 0 {
		bad = want + "0g"
	}
	js, _ = json.Marshal("0x" + bad)
	if err := json.Unmarshal(js, &x); err == nil {
		k.Fail("hexbytes-bad", "%s accepted", js)
	}
	js, _ = json.Marshal(bad)
	if err := json.Unmarshal(js, &y); err == nil {
		k.Fail("rawhexbytes-bad", "%s accepted", js)
	}
	if _, err := iclient.HexBytes("0x" + bad).Value(); err == nil {
		k.Fail("client-hexbytes-bad", "%s accepted", bad)
	}
}

// addresses: an account or contract keeps its identity in every form.
func addresses(k *mon.Case) {
	g := gen{k, false}
	id := g.bytes(20)
	isC := k.Intn(2) == 0
	pre, tag := "hx", byte(0)
	if isC {
		pre, tag = "cx", 1
	}
	text := pre + hex.EncodeToString(id)
	raw := append([]byte{tag}, id...)
	k.Input("%s", text)
	k.Seen("%s", text)
	junk := func() *common.Address { // a used variable
		a := new(common.Address)
		copy(a[:], g.bytes(21))
		return a
	}
	want := func(name string, a *common.Address, err error) {
		k.Count("forms", 1)
		if err != nil || !bytes.Equal(a.Bytes(), raw) || a.String() != text || a.IsContract() != isC || !bytes.Equal(a.ID(), id) {
			k.Fail(name, "%s became %s (%x) err=%v", text, a, a.Bytes(), err)
		}
	}
	a := junk()
	want("set-string", a, a.SetString(text))
	want("new-string", common.NewAddressFromString(text), nil)
	a = junk()
	want("set-bytes", a, a.SetBytes(raw))
	want("new-bytes", common.NewAddress(raw), nil)
	a = junk()
	want("set-type-id", a, a.SetTypeAndID(isC, id))
	if isC {
		want("new-contract", common.NewContractAddress(id), nil)
	} else {
		want("new-account", common.NewAccountAddress(id), nil)
	}
	js, err := json.Marshal(a)
	if err != nil || string(js) != `"`+text+`"` {
		k.Fail("json", "%s %v", js, err)
	}
	b := junk()
	want("json", b, json.Unmarshal(js, b))
	bs, err := codec.RLP.MarshalToBytes(a)
	if err != nil || !bytes.Equal(bs, rlpx.Enc(raw)) {
		k.Fail("rlp", "%x %v", bs, err)
	}
	b = junk()
	_, err = codec.RLP.UnmarshalFromBytes(bs, b)
	want("rlp", b, err)
	v, err := iclient.Address(text).Value()
	if err != nil || !bytes.Equal(v, raw) {
		k.Fail("client-value", "%x %v", v, err)
	}
	if s := string(iclient.NewAddress(raw)); s != text {
		k.Fail("client-new", "%s", s)
	}
	// leading zeros of the id may be left out in text and bytes
	n := k.Intn(20)
	short := append(make([]byte, 20-n), id[20-n:]...)
	c := junk()
	if err := c.SetString(pre + hex.EncodeToString(id[20-n:])); n > 0 && (err != nil || !bytes.Equal(c.ID(), short)) {
		k.Fail("short-text", "%d bytes: %s %v", n, c, err)
	}
	if n > 0 { // an odd number of digits: the first one is a low half
		id2 := append([]byte{}, short...)
		id2[20-n] &= 0x0f
		for _, p := range []string{pre, "0x"} {
			c, txt := junk(), p+hex.EncodeToString(id2[20-n:])[1:]
			if err := c.SetString(txt); err != nil || !bytes.Equal(c.ID(), id2) || c.IsContract() != (p == "cx") {
				k.Fail("odd-text", "%s: %s %v", txt, c, err)
			}
		}
	}
	// equality is that of type and id
	d := common.NewAddress(raw)
	if !a.Equal(d) || a.Equal(nil) || (*common.Address)(nil).Equal(a) || !(*common.Address)(nil).Equal(nil) {
		k.Fail("equal", "equality of %s", text)
	}
	o := append([]byte{}, raw...)
	o[1+k.Intn(20)] ^= byte(1 + k.Intn(255))
	if a.Equal(common.NewAddress(o)) {
		k.Fail("equal-other", "%x equals %x", raw, o)
	}
	o = append([]byte{}, raw...)
	o[0] ^= 1
	if a.Equal(common.NewAddress(o)) {
		k.Fail("equal-type", "%x equals %x", raw, o)
	}
	// what is not an address is refused
	bad := [][]byte{nil, {}, {2}, append([]byte{byte(2 + k.Intn(254))}, id...)}
	for _, x := range bad {
		if err := junk().SetBytes(x); err == nil {
			k.Fail("bad-bytes", "%x accepted", x)
		}
	}
	s := []byte(text)
	s[2+k.Intn(40)] = "gxz -"[k.Intn(5)]
	if err := junk().SetString(string(s)); err == nil {
		k.Fail("bad-text", "%s accepted", s)
	}
	for _, s := range []string{"", "hx", text[:41], text + "0", "xx" + text[2:], string(s), "0x" + text[2:]} {
		if v, err := iclient.Address(s).Value(); err == nil {
			k.Fail("client-bad", "%q accepted as %x", s, v)
		}
	}
}

// keyAddress: the address of a key is the hash of its public key.
func keyAddress(k *mon.Case) {
	g := gen{k, false}
	key := g.bytes(32)
	key[0] &= 0x7f
	key[31] |= 1
	sk, err := crypto.ParsePrivateKey(key)
	if err != nil {
		k.Fail("parse", "%v", err)
		return
	}
	k.Input("key %x", key)
	k.Seen("%x", key)
	pub := refPub(key)
	a := common.NewAccountAddressFromPublicKey(sk.PublicKey())
	h := mbtx.Sha3(pub[1:])
	if !bytes.Equal(a.ID(), h[12:]) || a.IsContract() {
		k.Fail("key-address", "%s instead of hx%x", a, h[12:])
	}
}

// btpAddress: the parts of a BTP address are those it was made of.
func btpAddress(k *mon.Case) {
	al := "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"
	word := func(min, max int, extra string) string {
		n := min + k.Intn(max-min+1)
		b := make([]byte, n)
		set := al + extra
		for i := range b {
			b[i] = set[k.Intn(len(set))]
		}
		return string(b)
	}
	nid := word(1, 12, "_-")
	if k.Intn(2) == 0 {
		nid = fmt.Sprintf("0x%x", k.Intn(1<<30))
	}
	ch := []string{"icon", "iconee", "eth", "hardhat", "bsc", "harmony", word(1, 10, "_-")}[k.Intn(7)]
	acc := word(1, 42, "_-.:")
	if k.Intn(2) == 0 {
		acc = "cx" + hex.EncodeToString(gen{k, false}.bytes(20))
	}
	proto := []string{"btp", "btp", "btp", "http", word(1, 5, "")}[k.Intn(5)]
	s := proto + "://" + nid + "." + ch + "/" + acc
	noNid := k.Intn(8) == 0
	if noNid {
		s, nid = proto+"://"+ch+"/"+acc, ""
	}
	k.Input("%s", s)
	k.Seen("%s", s)
	var a types.BtpAddress
	if err := a.Set(s); err != nil || a.String() != s {
		k.Fail("text", "%q %v", a, err)
	}
	net := nid + "." + ch
	if noNid {
		net = ch
	}
	for _, x := range []struct{ n, got, want string }{
		{"protocol", a.Protocol(), proto}, {"network", a.NetworkAddress(), net}, {"nid", a.NetworkID(), nid},
		{"chain", a.BlockChain(), ch}, {"account", a.Account(), acc}, {"contract", a.ContractAddress(), acc},
	} {
		if x.got != x.want {
			k.Fail(x.n, "%s: %q instead of %q", s, x.got, x.want)
		}
	}
	valid := proto == "btp" && (ch == "icon" || ch == "iconee")
	if err := types.ValidateBtpAddress(a); (err == nil) != valid {
		k.Fail("validate", "%s: %v", s, err)
	}
	// arbitrary text never crashes and is never valid without all parts
	g := gen{k, false}
	r := types.BtpAddress(g.str())
	if k.Intn(2) == 0 {
		i := k.Intn(len(s))
		r = types.BtpAddress(s[:i])
	}
	_, _, _, _, _ = r.Protocol(), r.NetworkAddress(), r.NetworkID(), r.BlockChain(), r.Account()
	if err := types.ValidateBtpAddress(r); err == nil && !(strings.HasPrefix(string(r), "btp://") && strings.Count(string(r), "/") >= 3 && r.Account() != "") {
		k.Fail("validate-incomplete", "%q is valid", r)
	}
}
