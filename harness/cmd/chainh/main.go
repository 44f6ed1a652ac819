// chainh monitors the parts of the relay that talk to a chain: senders,
// clients and block monitors, each against a simulated node.
package main

import (
	"github.com/icon-project/btp/common/log"

	"verifharness/internal/mon"
)

var props = map[string]func(*mon.Ctx){}

func main() {
	log.GlobalLogger().SetLevel(log.PanicLevel)
	mon.Main(props)
}
