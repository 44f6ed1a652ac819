package sim

import (
	"fmt"
	"net"
	"sync/atomic"
)

var listeners uint32

// Listen gives every node a loopback address of its own: a relay left over
// from another case that still calls its closed node must not reach this one
// when the system hands out the port again.
func Listen() (net.Listener, error) {
	n := atomic.AddUint32(&listeners, 1)
	ln, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+n/62500%200, 1+n/250%250, 1+n%250))
	if err != nil {
		ln, err = net.Listen("tcp", "127.0.0.1:0")
	}
	return ln, err
}
