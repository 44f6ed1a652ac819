// libh monitors the libraries the relay is built from.
package main

import (
	"math/big"
	"os"

	"github.com/icon-project/btp/common/codec"

	"verifharness/internal/mon"
)

func main() {
	mon.Main(map[string]func(*mon.Ctx){
		"C01": func(c *mon.Ctx) {
			c.RunP("rlp", c.N(30000, 1000000), 8, roundTrip(codec.RLP, "rlp", true))
			c.RunP("msgpack", c.N(15000, 500000), 8, roundTrip(codec.MP, "msgpack", false))
			c.RunP("rlp-script", c.N(20000, 600000), 8, script(codec.RLP, "rlp"))
			c.RunP("msgpack-script", c.N(10000, 300000), 8, script(codec.MP, "msgpack"))
			c.RunP("rlp-reuse", c.N(20000, 600000), 8, reuse(codec.RLP, "rlp", true))
			c.RunP("msgpack-reuse", c.N(10000, 300000), 8, reuse(codec.MP, "msgpack", false))
			c.RunP("rlp-embedded", c.N(3000, 60000), 8, embedded(codec.RLP, "rlp"))
			c.RunP("msgpack-embedded", c.N(2000, 60000), 8, embedded(codec.MP, "msgpack"))
		},
		"C02": func(c *mon.Ctx) {
			c.RunP("wire", c.N(60000, 2000000), 8, wire)
			c.RunP("ints", c.N(60000, 2000000), 8, wireInts)
		},
		"C03": func(c *mon.Ctx) {
			c.Run("rlp", c.N(60000, 1500000), hostile(codec.RLP, "rlp"))
			c.Run("msgpack", c.N(20000, 500000), hostile(codec.MP, "msgpack"))
		},
		"N01": func(c *mon.Ctx) {
			c.Run("edges", 6*600, intBytes(func(k *mon.Case) *big.Int { return edge(k.I) }))
			c.RunP("random", c.N(60000, 3000000), 8, intBytes(func(k *mon.Case) *big.Int { return gen{k, false}.big() }))
			c.Run("small", 70000, intBytes(func(k *mon.Case) *big.Int { return big.NewInt(int64(k.I) - 35000) }))
		},
		"N02": func(c *mon.Ctx) {
			c.Run("edges", 6*300, intText(func(k *mon.Case) *big.Int { return edge(k.I) }))
			c.RunP("random", c.N(15000, 600000), 8, intText(func(k *mon.Case) *big.Int { return gen{k, false}.big() }))
			c.RunP("int64", c.N(15000, 600000), 8, intText(func(k *mon.Case) *big.Int { return big.NewInt(gen{k, false}.int64()) }))
			c.RunP("malformed", c.N(15000, 600000), 8, badText)
			c.RunP("bytes", c.N(15000, 600000), 8, hexBytes)
		},
		"A01": func(c *mon.Ctx) {
			c.RunP("forms", c.N(20000, 1000000), 8, addresses)
			c.RunP("keys", c.N(200, 5000), 8, keyAddress)
		},
		"A02": func(c *mon.Ctx) { c.RunP("parts", c.N(40000, 2000000), 8, btpAddress) },
		"T01": func(c *mon.Ctx) {
			c.RunP("tree", c.N(3000, 120000), 8, binaryTree)
			c.RunP("forged", c.N(20000, 1500000), 8, binaryForged)
			c.RunP("recut", c.N(60000, 3000000), 8, binaryRecut)
			c.RunP("embed", c.N(20000, 1500000), 8, binaryEmbed)
		},
		"T02": func(c *mon.Ctx) {
			quiet()
			c.RunP("accumulator", c.N(3000, 60000), 8, accumulator)
			c.RunP("faults", c.N(10000, 300000), 8, accumulatorFaults)
		},
		"T03": func(c *mon.Ctx) { c.RunP("proofs", c.N(30000, 1500000), 8, trieProof) },
	})
}

// quiet drops what the code under test prints.
func quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}
