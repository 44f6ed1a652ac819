package main

import (
	ecrypto "github.com/ethereum/go-ethereum/crypto"
)

// refPub is the uncompressed public key of another implementation.
func refPub(key []byte) []byte {
	k, err := ecrypto.ToECDSA(key)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return ecrypto.FromECDSAPub(&k.PublicKey)
}
