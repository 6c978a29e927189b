// Package net is the simulated replacement of the standard net
// package: listening sockets exist in the simulated world only.
package net

import (
	std "net"
	"syscall"

	"verif.local/sim/simrt"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct {
	a    addr
	proc *simrt.Proc
	done chan struct{}
}

func (l *listener) Accept() (Conn, error) { <-l.done; return nil, std.ErrClosed }
func (l *listener) Close() error          { return nil }
func (l *listener) Addr() Addr            { return l.a }

// Listen binds an address; it fails while another live process holds it.
func Listen(network, address string) (Listener, error) {
	t := simrt.Cur()
	if t == nil {
		return nil, syscall.EADDRNOTAVAIL
	}
	w := t.World()
	var err error
	var l *listener
	t.Do("net.listen", func() {
		m, _ := w.Ext.Get("listeners").(map[string]*listener)
		if m == nil {
			m = map[string]*listener{}
			w.Ext.Set("listeners", m)
		}
		if o := m[address]; o != nil && !o.proc.Dead {
			err = &std.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
			return
		}
		l = &listener{addr(address), t.Proc, make(chan struct{})}
		m[address] = l
	})
	if err != nil {
		return nil, err
	}
	return l, nil
}
