// Package dial puts connections of the harness in the place of the network.
// The engine adds the hooks to package net by an overlay.
package dial

import (
	"errors"
	"net"
)

// To makes every dialled connection come from f.
func To(f func(network, address string) (net.Conn, error)) { net.ZZDial = f }

// Listener hands out the connections given.
type Listener struct {
	Conns  []net.Conn
	Block  bool // after the last connection there is no other, ever
	Closed bool
	Addrs  []string
}

func (l *Listener) Accept() (net.Conn, error) {
	if len(l.Conns) == 0 {
		if l.Block {
			<-make(chan bool)
		}
		return nil, errors.New("no more connections")
	}
	c := l.Conns[0]
	l.Conns = l.Conns[1:]
	return c, nil
}

func (l *Listener) Close() error   { l.Closed = true; return nil }
func (l *Listener) Addr() net.Addr { return nil }

// Listen makes l the listener of every address.
func Listen(l *Listener) {
	net.ZZListen = func(network, address string) (net.Listener, error) {
		l.Addrs = append(l.Addrs, network+" "+address)
		return l, nil
	}
}
