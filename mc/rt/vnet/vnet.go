// Package vnet replaces net in instrumented code: the same types, an in-memory network.
package vnet

import (
	"errors"
	"net"
	"time"

	"verifmc/rt"
)

func Listen(network, address string) (net.Listener, error) { return rt.Listen(network, address) }

func ListenTCP(network string, a *net.TCPAddr) (net.Listener, error) {
	return rt.Listen(network, a.String())
}

var errNoDial = errors.New("verif: outgoing connections are not modelled")

func Dial(network, address string) (net.Conn, error) { return nil, errNoDial }
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return nil, errNoDial
}
