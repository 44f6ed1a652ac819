// baseh monitors the supporting libraries: stores, keys, wallets, errors,
// logs and configuration files.
package main

import (
	"os"

	"verifharness/internal/mon"
)

var props = map[string]func(*mon.Ctx){}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-writer" {
		storeWriter(os.Args[2:])
		return
	}
	mon.Main(props)
}

// quiet drops what the code under test prints.
func quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}
