package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"strings"
	"sync"

	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	ethcommon "github.com/ethereum/go-ethereum/common"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"

	"verifharness/internal/mon"
)

func init() {
	props["K01"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("sign", c.N(1500, 60000), 8, k01sign)
		c.RunP("foreign", c.N(1500, 60000), 8, k01foreign)
		c.RunP("hostile", c.N(6000, 300000), 8, k01hostile)
		c.RunP("hash", c.N(3000, 100000), 8, k01hash)
		c.RunP("parallel", c.N(10, 200), 2, k01parallel)
	}
	props["K02"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("roundtrip", c.N(40, 1000), 6, k02round)
		c.RunP("foreign", c.N(1500, 60000), 8, k02foreign)
		c.RunP("strict", c.N(3000, 150000), 8, k02strict)
		c.RunP("altered", c.N(4000, 200000), 8, k02altered)
		c.RunP("evm", c.N(300, 10000), 8, k02evm)
	}
	props["K03"] = func(c *mon.Ctx) {
		storeQuiet()
		c.RunP("channel", c.N(600, 30000), 8, k03channel)
		c.RunP("hostile", c.N(1500, 60000), 8, k03hostile)
	}
}

var curveN = ethcrypto.S256().Params().N

// secretKey makes a private key, often at the edges of the valid range.
func secretKey(k *mon.Case) []byte {
	var n *big.Int
	switch k.Intn(8) {
	case 0:
		n = big.NewInt(1 + k.Int63n(3))
	case 1:
		n = new(big.Int).Sub(curveN, big.NewInt(1+k.Int63n(3)))
	case 2: // short
		n = new(big.Int).Rand(k.Rand, new(big.Int).Lsh(big.NewInt(1), uint(1+k.Intn(200))))
		n.Add(n, big.NewInt(1))
	default:
		n = new(big.Int).Rand(k.Rand, new(big.Int).Sub(curveN, big.NewInt(1)))
		n.Add(n, big.NewInt(1))
	}
	b := make([]byte, 32)
	n.FillBytes(b)
	return b
}

func refKey(b []byte) *ecdsa.PrivateKey {
	x, err := ethcrypto.ToECDSA(b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return x
}

func msgHash(k *mon.Case) []byte {
	h := make([]byte, 32)
	k.Read(h)
	switch k.Intn(10) {
	case 0:
		h = make([]byte, 32)
		h[31] = 1
	case 1:
		h = bytes.Repeat([]byte{0xff}, 32)
	case 2:
		h = h[:1+k.Intn(32)]
	case 3: // leading zeros
		copy(h, make([]byte, 1+k.Intn(8)))
	}
	return h
}

func pad32(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }

func k01sign(k *mon.Case) {
	sec := secretKey(k)
	hash := msgHash(k)
	k.Input("key %x hash %x", sec, hash)
	ref := refKey(sec)
	in := append([]byte{}, sec...)
	sk, err := crypto.ParsePrivateKey(in)
	if err != nil {
		k.Fail("key-refused", "%v", err)
		return
	}
	for i := range in {
		in[i] ^= 0x55
	}
	own := sk.Bytes()
	if !bytes.Equal(own, sec) {
		k.Fail("key-bytes", "%x", sk.Bytes())
	}
	for i := range own { // wiping the copy leaves the key
		own[i] = 0
	}
	if !bytes.Equal(sk.Bytes(), sec) {
		k.Fail("key-bytes-shared", "%x", sk.Bytes())
	}
	pk := sk.PublicKey()
	if !bytes.Equal(pk.SerializeCompressed(), ethcrypto.CompressPubkey(&ref.PublicKey)) {
		k.Fail("public-compressed", "%x", pk.SerializeCompressed())
	}
	if !bytes.Equal(pk.SerializeUncompressed(), ethcrypto.FromECDSAPub(&ref.PublicKey)) {
		k.Fail("public-uncompressed", "%x", pk.SerializeUncompressed())
	}
	for _, form := range [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed()} {
		p2, err := crypto.ParsePublicKey(append([]byte{}, form...))
		if err != nil || !p2.Equal(pk) || !pk.Equal(p2) {
			k.Fail("public-form", "%x: %v", form, err)
		}
	}
	sig, err := crypto.NewSignature(hash, sk)
	if err != nil {
		k.Fail("sign", "%v", err)
		return
	}
	checkSig(k, sig, hash, sk, pk)
	rsv, _ := sig.SerializeRSV()
	rs, _ := sig.SerializeRS()
	vrs, _ := sig.SerializeVRS()
	if len(rsv) != 65 || len(rs) != 64 || len(vrs) != 65 {
		k.Fail("forms", "rs %x rsv %x vrs %x", rs, rsv, vrs)
		return
	}
	if !bytes.Equal(rs, rsv[:64]) || vrs[0] != rsv[64] || !bytes.Equal(vrs[1:], rsv[:64]) {
		k.Fail("forms", "rs %x rsv %x vrs %x", rs, rsv, vrs)
	}
	if !ethcrypto.VerifySignature(ethcrypto.CompressPubkey(&ref.PublicKey), pad32(hash), rs) {
		k.Fail("rejected-elsewhere", "signature %x is not valid for another implementation", rs)
	}
	if pub, err := ethcrypto.Ecrecover(pad32(hash), rsv); err != nil || !bytes.Equal(pub, ethcrypto.FromECDSAPub(&ref.PublicKey)) {
		k.Fail("recovered-elsewhere", "another implementation recovers %x, %v from %x", pub, err, rsv)
	}
	// every serialized form reads back as the same signature
	a, err := crypto.ParseSignature(append([]byte{}, rsv...))
	if err != nil {
		k.Fail("parse", "%v", err)
	} else {
		checkSig(k, a, hash, sk, pk)
		sameForms(k, a, rs, rsv, vrs)
	}
	b, err := crypto.ParseSignatureVRS(append([]byte{}, vrs...))
	if err != nil {
		k.Fail("parse-vrs", "%v", err)
	} else {
		checkSig(k, b, hash, sk, pk)
		sameForms(k, b, rs, rsv, vrs)
	}
	c, err := crypto.ParseSignature(append([]byte{}, rs...))
	if err != nil || c.HasV() {
		k.Fail("parse-rs", "%v", err)
	} else {
		if x, err := c.SerializeRS(); err != nil || !bytes.Equal(x, rs) {
			k.Fail("parse-rs", "%x %v", x, err)
		}
		if x, err := c.SerializeRSV(); err == nil {
			k.Fail("v-invented", "%x", x)
		}
		if x, err := c.SerializeVRS(); err == nil {
			k.Fail("v-invented", "%x", x)
		}
		if x, err := c.RecoverPublicKey(hash); err == nil {
			k.Fail("v-invented", "%v", x)
		}
	}
	// anything altered does not verify
	alt := append([]byte{}, hash...)
	alt[k.Intn(len(alt))] ^= byte(1 << k.Intn(8))
	if sig.Verify(alt, pk) {
		k.Fail("wrong-hash-verifies", "%x", alt)
	}
	bad := append([]byte{}, rsv...)
	bad[k.Intn(65)] ^= byte(1 << k.Intn(8))
	if s, err := crypto.ParseSignature(bad); err == nil && s.Verify(hash, pk) {
		k.Fail("altered-verifies", "%x", bad)
	}
	o := secretKey(k)
	if !bytes.Equal(o, sec) {
		ok, err := crypto.ParsePrivateKey(o)
		if err != nil {
			k.Fail("key-refused", "%v", err)
		} else if sig.Verify(hash, ok.PublicKey()) || ok.PublicKey().Equal(pk) {
			k.Fail("other-key-verifies", "%x", o)
		}
	}
	// the high-s twin is refused or at least is not taken for another key's
	s := new(big.Int).SetBytes(rs[32:])
	if s.Cmp(new(big.Int).Rsh(curveN, 1)) > 0 {
		k.Fail("high-s", "%x", rs)
	}
	// shared secrets agree with both sides and with the reference
	if !bytes.Equal(o, sec) {
		ok, err := crypto.ParsePrivateKey(o)
		if err == nil {
			x := sk.ECDH(ok.PublicKey())
			y := ok.ECDH(pk)
			rp := refKey(o).PublicKey
			gx, gy := ethcrypto.S256().ScalarMult(rp.X, rp.Y, sec)
			want := ethcrypto.CompressPubkey(&ecdsa.PublicKey{Curve: ethcrypto.S256(), X: gx, Y: gy})
			if !bytes.Equal(x, y) || !bytes.Equal(x, want) {
				k.Fail("ecdh", "%x %x reference %x", x, y, want)
			}
		}
	}
	// wallet
	w, err := wallet.NewIcxWalletFromPrivateKey(sk)
	if err != nil {
		k.Fail("wallet", "%v", err)
		return
	}
	ws, err := w.Sign(hash)
	if err != nil {
		k.Fail("wallet-sign", "%v", err)
	} else if pub, err := ethcrypto.Ecrecover(pad32(hash), ws); err != nil || !bytes.Equal(pub, ethcrypto.FromECDSAPub(&ref.PublicKey)) {
		k.Fail("wallet-sign", "%x recovers %x", ws, pub)
	}
	if !bytes.Equal(w.PublicKey(), pk.SerializeCompressed()) {
		k.Fail("wallet-key", "%x", w.PublicKey())
	}
	if w.Address() != icxAddress(ref) {
		k.Fail("wallet-address", "%s, want %s", w.Address(), icxAddress(ref))
	}
	k.Count("signatures", 1)
	k.Seen("%x %x", sec, hash)
}

func icxAddress(ref *ecdsa.PrivateKey) string {
	h := sha3.Sum256(ethcrypto.FromECDSAPub(&ref.PublicKey)[1:])
	return "hx" + hex.EncodeToString(h[12:])
}

func checkSig(k *mon.Case, sig *crypto.Signature, hash []byte, sk *crypto.PrivateKey, pk *crypto.PublicKey) {
	if !sig.HasV() {
		k.Fail("no-v", "%s", sig)
	}
	if !sig.Verify(hash, pk) {
		k.Fail("verify", "own signature %s does not verify", sig)
	}
	p, err := sig.RecoverPublicKey(hash)
	if err != nil || !p.Equal(pk) {
		k.Fail("recover", "%v %v", p, err)
	}
}

func sameForms(k *mon.Case, s *crypto.Signature, rs, rsv, vrs []byte) {
	a, e1 := s.SerializeRS()
	b, e2 := s.SerializeRSV()
	c, e3 := s.SerializeVRS()
	if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(a, rs) || !bytes.Equal(b, rsv) || !bytes.Equal(c, vrs) {
		k.Fail("forms", "%x %x %x %v %v %v, want %x %x %x", a, b, c, e1, e2, e3, rs, rsv, vrs)
	}
	if s.String() != "0x"+hex.EncodeToString(rsv) {
		k.Fail("forms", "%s", s)
	}
}

// k01foreign verifies signatures made elsewhere.
func k01foreign(k *mon.Case) {
	sec := secretKey(k)
	hash := pad32(msgHash(k))
	k.Input("key %x hash %x", sec, hash)
	ref := refKey(sec)
	raw, err := ethcrypto.Sign(hash, ref)
	if err != nil {
		panic("harness: " + err.Error())
	}
	sig, err := crypto.ParseSignature(raw)
	if err != nil {
		k.Fail("foreign-parse", "%v", err)
		return
	}
	pk, err := crypto.ParsePublicKey(ethcrypto.FromECDSAPub(&ref.PublicKey))
	if err != nil {
		k.Fail("foreign-key", "%v", err)
		return
	}
	if !sig.Verify(hash, pk) {
		k.Fail("foreign-verify", "%x", raw)
	}
	if p, err := sig.RecoverPublicKey(hash); err != nil || !p.Equal(pk) {
		k.Fail("foreign-recover", "%v %v", p, err)
	}
	k.Seen("%x %x", sec, hash)
}

func k01hostile(k *mon.Case) {
	n := []int{0, 1, 31, 32, 33, 63, 64, 65, 66, 130}[k.Intn(10)]
	b := make([]byte, n)
	k.Read(b)
	switch k.Intn(6) {
	case 0:
		b = make([]byte, n)
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	if n == 65 && k.Intn(2) == 0 {
		b[64] = byte(k.Intn(5))
	}
	if n == 33 && k.Intn(2) == 0 {
		b[0] = byte(2 + k.Intn(2))
	}
	if n == 65 && k.Intn(2) == 0 {
		b[0] = 4
	}
	if n == 32 && k.Intn(3) == 0 { // around the group order
		v := new(big.Int).Add(curveN, big.NewInt(k.Int63n(5)-2))
		v.FillBytes(b)
	}
	hash := msgHash(k)
	k.Input("%x as key and signature, hash %x", b, hash)
	goodSec := secretKey(k)
	good, err := crypto.ParsePrivateKey(goodSec)
	if err != nil {
		k.Fail("key-refused", "%v", err)
		return
	}
	sk, err := crypto.ParsePrivateKey(b)
	_, rerr := ethcrypto.ToECDSA(b)
	if (err == nil) != (rerr == nil) {
		k.Fail("private-accepted", "private key %x: %v, another implementation: %v", b, err, rerr)
	} else if err == nil {
		sk.PublicKey()
		if _, err := crypto.NewSignature(hash, sk); err != nil {
			k.Fail("sign", "%v", err)
		}
	}
	pk, err := crypto.ParsePublicKey(append([]byte{}, b...))
	var rp *ecdsa.PublicKey
	if len(b) == 33 {
		rp, rerr = ethcrypto.DecompressPubkey(b)
		// the reference takes the coordinate modulo the field
		if rerr == nil && new(big.Int).SetBytes(b[1:]).Cmp(ethcrypto.S256().Params().P) >= 0 {
			rerr = fmt.Errorf("no coordinate")
		}
	} else {
		rp, rerr = ethcrypto.UnmarshalPubkey(b)
	}
	if (err == nil) != (rerr == nil) {
		k.Fail("public-accepted", "public key %x: %v, another implementation: %v", b, err, rerr)
	} else if err == nil {
		if !bytes.Equal(pk.SerializeUncompressed(), ethcrypto.FromECDSAPub(rp)) {
			k.Fail("public-form", "%x", pk.SerializeUncompressed())
		}
	}
	for form, parse := range []func([]byte) (*crypto.Signature, error){crypto.ParseSignature, crypto.ParseSignatureVRS} {
		sig, err := parse(append([]byte{}, b...))
		if err != nil {
			if len(b) == 65 {
				k.Fail("signature-refused", "%x %v", b, err)
			}
			continue
		}
		rs, err := sig.SerializeRS()
		if err != nil || len(rs) != 64 {
			k.Fail("forms", "%x %v", rs, err)
			continue
		}
		if len(b) == 65 {
			v, r := b[64], b[:64]
			if form == 1 {
				v, r = b[0], b[1:]
			}
			sameForms(k, sig, r, append(append([]byte{}, r...), v), append([]byte{v}, r...))
		}
		if sig.HasV() {
			rsv, err := sig.SerializeRSV()
			if err != nil {
				k.Fail("forms", "%v", err)
				continue
			}
			p, err := sig.RecoverPublicKey(hash)
			want, werr := refRecover(pad32(hash), rsv)
			if err == nil && rsv[64] < 4 && (werr != nil || !bytes.Equal(p.SerializeUncompressed(), want)) {
				k.Fail("recover-accepted", "signature %x recovers %v, another implementation %x, %v", rsv, p, want, werr)
			}
			if err == nil {
				k.Count("recovered", 1)
			}
		}
		if sig.Verify(hash, good.PublicKey()) {
			k.Fail("forged", "%x verifies for the key %x", rs, goodSec)
		}
	}
	for _, h := range [][]byte{nil, {}, make([]byte, 33), make([]byte, 64)} {
		if s, err := crypto.NewSignature(h, good); err == nil {
			k.Fail("hash-length", "signed a hash of %d bytes: %v", len(h), s)
		}
	}
	if s, err := crypto.NewSignature(hash, nil); err == nil {
		k.Fail("nil-key", "%v", s)
	}
	k.Seen("%x", b)
}

func k01hash(k *mon.Case) {
	b := make([]byte, k.Intn(300))
	k.Read(b)
	k.Input("%x", b)
	a := sha3.Sum256(b)
	if !bytes.Equal(crypto.SHA3Sum256(b), a[:]) {
		k.Fail("sha3", "%x", crypto.SHA3Sum256(b))
	}
	c := sha256.Sum256(b)
	if !bytes.Equal(crypto.SHASum256(b), c[:]) {
		k.Fail("sha2", "%x", crypto.SHASum256(b))
	}
	salt, info := b[:len(b)/3], b[len(b)/3:len(b)/2]
	n := k.Intn(100)
	want := make([]byte, n)
	io.ReadFull(hkdf.New(sha3.New256, b, salt, info), want)
	got, err := crypto.HKDF(b, salt, info, n)
	if err != nil || !bytes.Equal(got, want) {
		k.Fail("hkdf", "%x %v, want %x", got, err, want)
	}
	if _, err := crypto.HKDF(b, salt, info, 255*32+1); err == nil {
		k.Fail("hkdf-too-long", "no error")
	}
	k.Seen("%x", b)
}

func k01parallel(k *mon.Case) {
	var wg sync.WaitGroup
	k.Input("8 signers")
	for i := 0; i < 8; i++ {
		sec := secretKey(k)
		hashes := make([][]byte, 10)
		for j := range hashes {
			hashes[j] = msgHash(k)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sk, err := crypto.ParsePrivateKey(sec)
			if err != nil {
				k.Fail("key-refused", "%v", err)
				return
			}
			ref := refKey(sec)
			for _, h := range hashes {
				sig, err := crypto.NewSignature(h, sk)
				if err != nil {
					k.Fail("sign", "%v", err)
					return
				}
				checkSig(k, sig, h, sk, sk.PublicKey())
				rs, _ := sig.SerializeRS()
				if !ethcrypto.VerifySignature(ethcrypto.CompressPubkey(&ref.PublicKey), pad32(h), rs) {
					k.Fail("parallel", "%x", rs)
				}
			}
		}()
	}
	wg.Wait()
	k.Seen("%d", k.I)
}

// --- key stores

func password(k *mon.Case) []byte {
	switch k.Intn(5) {
	case 0:
		return []byte{}
	case 1:
		return []byte("gochain")
	case 2:
		return []byte("пароль 비밀번호 \n")
	}
	b := make([]byte, 1+k.Intn(40))
	k.Read(b)
	return b
}

func keccak(bs ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}

// refStore is a key store made by an independent implementation.
func refStore(k *mon.Case, sec, pw []byte, n int, mutate func(m, c, kp, cp map[string]interface{})) []byte {
	salt := make([]byte, 8+k.Intn(25))
	k.Read(salt)
	iv := make([]byte, 16)
	k.Read(iv)
	p := 1 + k.Intn(2)
	dk, err := scrypt.Key(pw, salt, n, 8, p, 32)
	if err != nil {
		panic("harness: " + err.Error())
	}
	blk, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, len(sec))
	cipher.NewCTR(blk, iv).XORKeyStream(ct, sec)
	cp := map[string]interface{}{"iv": hex.EncodeToString(iv)}
	kp := map[string]interface{}{"dklen": 32, "n": n, "r": 8, "p": p, "salt": hex.EncodeToString(salt)}
	c := map[string]interface{}{"cipher": "aes-128-ctr", "cipherparams": cp, "ciphertext": hex.EncodeToString(ct),
		"kdf": "scrypt", "kdfparams": kp, "mac": hex.EncodeToString(keccak(dk[16:32], ct))}
	addr := "hx0000000000000000000000000000000000000000"
	if x, err := ethcrypto.ToECDSA(sec); err == nil {
		addr = icxAddress(x)
	}
	m := map[string]interface{}{"address": addr, "id": uuid.New().String(), "version": 3, "coinType": "icx", "crypto": c}
	if mutate != nil {
		mutate(m, c, kp, cp)
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func sameWallet(k *mon.Case, w wallet.Wallet, sec []byte, sig string) {
	ref := refKey(sec)
	if w.Address() != icxAddress(ref) {
		k.Fail(sig+"-address", "%s, want %s", w.Address(), icxAddress(ref))
	}
	h := keccak(sec)
	s, err := w.Sign(h)
	if err != nil {
		k.Fail(sig+"-sign", "%v", err)
		return
	}
	if pub, err := ethcrypto.Ecrecover(h, s); err != nil || !bytes.Equal(pub, ethcrypto.FromECDSAPub(&ref.PublicKey)) {
		k.Fail(sig+"-key", "the wallet signs with another key")
	}
}

func wrongPassword(k *mon.Case, pw []byte) []byte {
	w := append([]byte{}, pw...)
	switch k.Intn(4) {
	case 0:
		return append(w, 'x')
	case 1:
		return append(w, '\n')
	case 2:
		if len(w) > 0 {
			return w[:len(w)-1]
		}
	case 3:
		if len(w) > 0 {
			w[k.Intn(len(w))] ^= 1
			return w
		}
	}
	return append([]byte{' '}, w...)
}

// zeroPadded tells passwords apart that scrypt takes for the same one.
func zeroPadded(a, b []byte) bool {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	x, y := make([]byte, n), make([]byte, n)
	copy(x, a)
	copy(y, b)
	return bytes.Equal(x, y)
}

// k02round stores and reads back a key with the real parameters.
func k02round(k *mon.Case) {
	sec, pw := secretKey(k), password(k)
	k.Input("key %x password %q", sec, pw)
	sk, err := crypto.ParsePrivateKey(sec)
	if err != nil {
		k.Fail("key-refused", "%v", err)
		return
	}
	w0, _ := wallet.NewIcxWalletFromPrivateKey(sk)
	var data []byte
	if k.Intn(2) == 0 {
		data, err = wallet.EncryptKeyAsKeyStore(sk, pw)
	} else {
		data, err = wallet.KeyStoreFromWallet(w0, pw)
	}
	if err != nil {
		k.Fail("encrypt", "%v", err)
		return
	}
	if bytes.Contains(data, []byte(hex.EncodeToString(sec))) {
		k.Fail("plain-key", "the key store shows the key")
	}
	// another implementation reads it
	var m struct {
		Address string
		Version int
		Coin    string `json:"coinType"`
		Crypto  struct {
			Cipher, CipherText, KDF, MAC string
			CipherParams                 struct{ IV string }
			KDFParams                    struct {
				DKLen, N, R, P int
				Salt           string
			}
		}
	}
	if err = json.Unmarshal(data, &m); err != nil {
		k.Fail("json", "%v", err)
		return
	}
	salt, e1 := hex.DecodeString(m.Crypto.KDFParams.Salt)
	iv, e2 := hex.DecodeString(m.Crypto.CipherParams.IV)
	ct, e3 := hex.DecodeString(m.Crypto.CipherText)
	if e1 != nil || e2 != nil || e3 != nil || len(iv) != 16 || len(salt) < 8 || m.Version != 3 || m.Coin != "icx" ||
		m.Crypto.Cipher != "aes-128-ctr" || m.Crypto.KDF != "scrypt" || m.Crypto.KDFParams.N < 4096 {
		k.Fail("format", "%s", data)
		return
	}
	usedMu.Lock()
	if usedSalts[string(salt)] || usedSalts[string(iv)] {
		k.Fail("repeated-salt", "salt %x and vector %x were used before", salt, iv)
	}
	usedSalts[string(salt)], usedSalts[string(iv)] = true, true
	usedMu.Unlock()
	dk, err := scrypt.Key(pw, salt, m.Crypto.KDFParams.N, m.Crypto.KDFParams.R, m.Crypto.KDFParams.P, m.Crypto.KDFParams.DKLen)
	if err != nil || len(dk) < 32 {
		k.Fail("format", "%v", err)
		return
	}
	if hex.EncodeToString(keccak(dk[16:32], ct)) != m.Crypto.MAC {
		k.Fail("mac", "%s", data)
	}
	blk, _ := aes.NewCipher(dk[:16])
	pt := make([]byte, len(ct))
	cipher.NewCTR(blk, iv).XORKeyStream(pt, ct)
	if !bytes.Equal(pt, sec) {
		k.Fail("unreadable-elsewhere", "%x", pt)
	}
	ref := refKey(sec)
	if m.Address != icxAddress(ref) {
		k.Fail("stored-address", "%s, want %s", m.Address, icxAddress(ref))
	}
	if a, err := wallet.ReadAddressFromKeyStore(data); err != nil || a.String() != icxAddress(ref) {
		k.Fail("read-address", "%v %v", a, err)
	}
	w, err := wallet.DecryptKeyStore(data, pw)
	if err != nil {
		k.Fail("decrypt", "%v", err)
		return
	}
	sameWallet(k, w, sec, "decrypted")
	bad := wrongPassword(k, pw)
	if w, err := wallet.DecryptKeyStore(data, bad); err == nil && !zeroPadded(pw, bad) {
		k.Fail("wrong-password", "password %q opens the store of %q: %s", bad, pw, w.Address())
	}
	k.Count("stores", 1)
	k.Seen("%x", sec)
}

var (
	usedMu    sync.Mutex
	usedSalts = map[string]bool{}
)

// k02strict makes one change to a good store that has to be noticed.
func k02strict(k *mon.Case) {
	sec, pw := secretKey(k), password(k)
	what := ""
	flip := func(m map[string]interface{}, key string) {
		b, _ := hex.DecodeString(m[key].(string))
		b[k.Intn(len(b))] ^= byte(1 << k.Intn(8))
		m[key] = hex.EncodeToString(b)
	}
	cutHex := func(m map[string]interface{}, key string) {
		s := m[key].(string)
		m[key] = s[:2*k.Intn(len(s)/2)]
	}
	data := refStore(k, sec, pw, 4, func(m, c, kp, cp map[string]interface{}) {
		switch k.Intn(14) {
		case 0:
			what = "one bit of the mac"
			flip(c, "mac")
		case 1:
			what = "a shorter mac"
			cutHex(c, "mac")
		case 2:
			what = "a longer mac"
			c["mac"] = c["mac"].(string) + "00"
		case 3:
			what = "no mac"
			delete(c, "mac")
		case 4:
			what = "one bit of the cipher text"
			flip(c, "ciphertext")
		case 5:
			what = "a shorter cipher text"
			cutHex(c, "ciphertext")
		case 6:
			what = "one bit of the vector"
			flip(cp, "iv")
		case 7:
			what = "one bit of the salt"
			flip(kp, "salt")
		case 8:
			what = "the cipher"
			c["cipher"] = []string{"aes-128-cbc", "aes-256-ctr", "", "AES-128-CTR", "none"}[k.Intn(5)]
		case 9:
			what = "the key derivation"
			c["kdf"] = []string{"pbkdf2", "", "Scrypt", "scrypt2"}[k.Intn(4)]
		case 10:
			what = "the coin"
			m["coinType"] = []string{"btc", "ICX", "icx ", "icxx"}[k.Intn(4)]
		case 11:
			what = "one bit of the address"
			a := strings.TrimPrefix(m["address"].(string), "hx")
			t := map[string]interface{}{"a": a}
			flip(t, "a")
			m["address"] = "hx" + t["a"].(string)
		case 12:
			what = "the kind of the address"
			m["address"] = "cx" + strings.TrimPrefix(m["address"].(string), "hx")
		case 13:
			what = "the cost"
			switch k.Intn(3) {
			case 0:
				kp["n"] = 8
			case 1:
				kp["r"] = 9
			case 2:
				kp["p"] = kp["p"].(int) + 1
			}
		}
	})
	k.Input("%s: %s password %q", what, data, pw)
	if w, err := wallet.DecryptKeyStore(data, pw); err == nil {
		k.Fail("change-unnoticed", "%s was changed, and the store still opens to %s", what, w.Address())
	}
	if a, err := wallet.ReadAddressFromKeyStore(data); what == "the coin" && err == nil {
		k.Fail("foreign-address", "address %s read from the store of another coin", a)
	}
	k.Count("changes_noticed", 1)
	k.Seen("%s %x", what, sec)
}

// k02foreign reads stores other software wrote.
func k02foreign(k *mon.Case) {
	sec, pw := secretKey(k), password(k)
	n := 1 << uint(1+k.Intn(8))
	data := refStore(k, sec, pw, n, nil)
	k.Input("%s password %q", data, pw)
	w, err := wallet.DecryptKeyStore(data, pw)
	if err != nil {
		k.Fail("foreign", "%v", err)
		return
	}
	sameWallet(k, w, sec, "foreign")
	bad := wrongPassword(k, pw)
	if w, err := wallet.DecryptKeyStore(data, bad); err == nil && !zeroPadded(pw, bad) {
		k.Fail("wrong-password", "password %q opens the store of %q: %s", bad, pw, w.Address())
	}
	k.Seen("%x %d", sec, n)
}

// k02altered reads damaged stores: the owner's wallet or an error.
func k02altered(k *mon.Case) {
	sec, pw := secretKey(k), password(k)
	what := ""
	if k.Intn(12) == 0 {
		sec = make([]byte, 32) // no key at all
		what = "zero key "
		if k.Intn(2) == 0 {
			curveN.FillBytes(sec)
			what = "order as key "
		}
	}
	if k.Intn(15) == 0 {
		sec = append(sec, sec[:k.Intn(5)]...)[k.Intn(3):]
		what += fmt.Sprintf("%d bytes ", len(sec))
	}
	hexbad := func(s string) string {
		b, _ := hex.DecodeString(s)
		switch k.Intn(7) {
		case 0:
			return ""
		case 1:
			if len(b) > 0 {
				b[k.Intn(len(b))] ^= byte(1 << k.Intn(8))
			}
		case 2:
			b = b[:k.Intn(len(b)+1)]
		case 3:
			b = append(b, b...)
		case 4:
			return s + "0"
		case 5:
			return "zz" + s
		case 6:
			return s + "00"
		}
		return hex.EncodeToString(b)
	}
	data := refStore(k, sec, pw, 4, func(m, c, kp, cp map[string]interface{}) {
		for i := k.Intn(3); i >= 0; i-- {
			switch x := k.Intn(16); x {
			case 0:
				cp["iv"] = hexbad(cp["iv"].(string))
				what += "iv "
			case 1:
				c["ciphertext"] = hexbad(c["ciphertext"].(string))
				what += "ciphertext "
			case 2:
				c["mac"] = hexbad(c["mac"].(string))
				what += "mac "
			case 3:
				kp["salt"] = hexbad(kp["salt"].(string))
				what += "salt "
			case 4:
				kp["n"] = []interface{}{0, 1, 3, -2, 8, "x", nil, 1.5}[k.Intn(8)]
				what += "n "
			case 5:
				kp["dklen"] = []interface{}{0, 1, 15, 16, 17, 31, 33, 64, -1, nil, "32"}[k.Intn(11)]
				what += "dklen "
			case 6:
				kp[[]string{"r", "p"}[k.Intn(2)]] = []interface{}{0, -1, 2, 9, nil}[k.Intn(5)]
				what += "rp "
			case 7:
				c["cipher"] = []interface{}{"aes-128-cbc", "", nil, 1}[k.Intn(4)]
				what += "cipher "
			case 8:
				c["kdf"] = []interface{}{"pbkdf2", "", nil}[k.Intn(3)]
				what += "kdf "
			case 9:
				delete(c, []string{"cipher", "cipherparams", "ciphertext", "kdf", "kdfparams", "mac"}[k.Intn(6)])
				what += "missing "
			case 10:
				c[[]string{"cipherparams", "kdfparams"}[k.Intn(2)]] = []interface{}{nil, 1, "x", map[string]interface{}{}, []int{1}}[k.Intn(5)]
				what += "params "
			case 11:
				b := make([]byte, 20)
				k.Read(b)
				m["address"] = "hx" + hex.EncodeToString(b)
				what += "address "
			case 12:
				m["address"] = []interface{}{"", "hx", nil, 1, "cx" + strings.TrimPrefix(m["address"].(string), "hx"), "hxzz"}[k.Intn(6)]
				if m["address"] == nil || m["address"] == 1 {
					m["address"] = ""
				}
				what += "address "
			case 13:
				m["coinType"] = []interface{}{"btc", "ICX"}[k.Intn(2)] // without one or as "evm" it is read as another software's
				what += "coin "
			case 14:
				m["crypto"] = []interface{}{nil, 1, map[string]interface{}{}}[k.Intn(3)]
				what += "crypto "
			case 15:
				m["version"] = 3
			}
			if m["crypto"] == nil {
				break
			}
			if _, ok := c["ciphertext"].(string); !ok {
				break
			}
			if _, ok := c["mac"].(string); !ok {
				break
			}
		}
	})
	if k.Intn(10) == 0 {
		data = data[:k.Intn(len(data))]
		what += "cut "
	}
	k.Input("%s%s password %q", what, data, pw)
	w, err := wallet.DecryptKeyStore(data, pw)
	if err == nil {
		if len(sec) != 32 {
			k.Fail("altered-accepted", "%s", w.Address())
			return
		}
		if _, e := ethcrypto.ToECDSA(sec); e != nil {
			k.Fail("altered-accepted", "no key: %s", w.Address())
			return
		}
		sameWallet(k, w, sec, "altered")
		k.Count("still_readable", 1)
	} else {
		k.Count("refused", 1)
	}
	if a, err := wallet.ReadAddressFromKeyStore(data); err == nil && a == nil {
		k.Fail("read-address", "no address and no error")
	}
	k.Seen("%s %v", what, err != nil)
}

func k02evm(k *mon.Case) {
	sec, pw := secretKey(k), password(k)
	k.Input("key %x password %q", sec, pw)
	ref := refKey(sec)
	id := uuid.New()
	key := &keystore.Key{Id: id, Address: ethcrypto.PubkeyToAddress(ref.PublicKey), PrivateKey: ref}
	data, err := keystore.EncryptKey(key, string(pw), 2, 1)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if k.Intn(2) == 0 { // marked as such
		var m map[string]interface{}
		json.Unmarshal(data, &m)
		m["coinType"] = "evm"
		data, _ = json.Marshal(m)
	}
	w, err := wallet.DecryptKeyStore(data, pw)
	if err != nil {
		k.Fail("evm-decrypt", "%v", err)
		return
	}
	if ethcommon.HexToAddress(w.Address()) != key.Address || len(w.Address()) != 42 {
		k.Fail("evm-address", "%s, want %s", w.Address(), key.Address)
	}
	if w.Address() != key.Address.Hex() {
		k.Fail("evm-address", "%s, want %s", w.Address(), key.Address.Hex())
	}
	if !bytes.Equal(w.PublicKey(), ethcrypto.FromECDSAPub(&ref.PublicKey)) {
		k.Fail("evm-key", "%x", w.PublicKey())
	}
	if ew, ok := w.(*wallet.EvmWallet); !ok || ew.Skey.D.Cmp(ref.D) != 0 {
		k.Fail("evm-key", "another key")
	}
	bad := wrongPassword(k, pw)
	if _, err := wallet.DecryptKeyStore(data, bad); err == nil && !zeroPadded(pw, bad) {
		k.Fail("wrong-password", "%q opens the store of %q", bad, pw)
	}
	k.Seen("%x", sec)
}

// --- encrypted messages between wallets

func icxWallet(k *mon.Case, sec []byte) wallet.Wallet {
	sk, err := crypto.ParsePrivateKey(sec)
	if err != nil {
		k.Fail("key-refused", "%v", err)
		return wallet.New()
	}
	w, _ := wallet.NewIcxWalletFromPrivateKey(sk)
	return w
}

func k03channel(k *mon.Case) {
	as, bs, cs := secretKey(k), secretKey(k), secretKey(k)
	a, b, c := icxWallet(k, as), icxWallet(k, bs), icxWallet(k, cs)
	msg := make([]byte, k.Intn(200))
	k.Read(msg)
	k.Input("from %x to %x, %d bytes", as, bs, len(msg))
	keep := append([]byte{}, msg...)
	pub := b.PublicKey()
	if k.Intn(2) == 0 {
		pub = ethcrypto.FromECDSAPub(&refKey(bs).PublicKey)
	}
	e, err := wallet.NewEncrypted(a, pub, msg)
	if len(pub) == 65 && err != nil {
		k.Seen("uncompressed refused")
		return
	}
	if err != nil {
		k.Fail("encrypt", "%v", err)
		return
	}
	if !bytes.Equal(msg, keep) {
		k.Fail("input-changed", "%x", msg)
	}
	// over the wire
	j, err := json.Marshal(e)
	var r wallet.Encrypted
	if err == nil {
		err = json.Unmarshal(j, &r)
	}
	if err != nil {
		k.Fail("json", "%v", err)
		return
	}
	if len(pub) == 33 {
		got, err := r.Decrypt(b)
		if err != nil || !bytes.Equal(got, msg) {
			k.Fail("decrypt", "%x %v, sent %x", got, err, msg)
		}
	}
	if len(msg) >= 16 {
		if bytes.Contains(j, msg) || bytes.Contains(e.CipherText, msg[:16]) {
			k.Fail("plain", "%s", j)
		}
		if !bytes.Equal(cs, bs) && !bytes.Equal(cs, as) {
			if got, err := r.Decrypt(c); err == nil && bytes.Equal(got, msg) {
				k.Fail("third-party", "a third wallet reads the message")
			}
		}
		e2, err := wallet.NewEncrypted(a, pub, msg)
		if err == nil && bytes.Equal(e2.CipherText, e.CipherText) {
			k.Fail("repeated-stream", "the same message encrypts to the same bytes")
		}
	}
	// answering on the same parameters
	if len(pub) == 33 && len(msg) > 0 {
		back := &wallet.Encrypted{Param: r.Param, CipherText: make([]byte, len(msg))}
		if err := back.Encrypt(b, msg); err != nil {
			k.Fail("answer", "%v", err)
		} else if got, err := back.Decrypt(b); err != nil || !bytes.Equal(got, msg) {
			k.Fail("answer", "%x %v", got, err)
		}
	}
	k.Seen("%x %x %d", as, bs, len(msg))
}

// k03hostile: a peer key that is none must not give an encryption anyone can read.
func k03hostile(k *mon.Case) {
	as := secretKey(k)
	a := icxWallet(k, as)
	n := []int{0, 1, 20, 32, 33, 33, 33, 64, 65, 65}[k.Intn(10)]
	pub := make([]byte, n)
	k.Read(pub)
	if n == 33 {
		pub[0] = byte(2 + k.Intn(3))
	}
	if n == 65 {
		pub[0] = 4
	}
	if k.Intn(5) == 0 {
		pub = make([]byte, n)
	}
	msg := make([]byte, 16+k.Intn(40))
	k.Read(msg)
	var w wallet.Wallet = a
	evm := k.Intn(4) == 0
	if evm {
		w, _ = wallet.NewEvmWalletFromPrivateKey(refKey(as))
	}
	k.Input("evm %v key %x", evm, pub)
	e, err := wallet.NewEncrypted(w, pub, msg)
	if err == nil {
		// whoever knows nothing tries the empty secret
		key, _ := crypto.HKDF(nil, e.Param[:wallet.EncryptSaltSize], []byte(wallet.HKDFInfo), wallet.HKDFKeySize)
		blk, _ := aes.NewCipher(key[:16])
		pt := make([]byte, len(msg))
		cipher.NewCTR(blk, key[16:]).XORKeyStream(pt, e.CipherText)
		if bytes.Equal(pt, msg) {
			k.Fail("readable", "encrypted for %x with the empty secret", pub)
		}
	}
	r := wallet.Encrypted{Param: make([]byte, k.Intn(80)), CipherText: msg}
	k.Read(r.Param)
	if k.Intn(3) == 0 {
		r.Param = append(make([]byte, 4), pub...)
	}
	got, err := r.Decrypt(w)
	if err == nil && len(got) != len(msg) {
		k.Fail("decrypt-length", "%x", got)
	}
	k.Seen("%v %x", evm, pub)
}

// refRecover is Ecrecover of the reference implementation, which crashes for
// some of the signatures that have no key.
func refRecover(hash, sig []byte) (pub []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return ethcrypto.Ecrecover(hash, sig)
}
