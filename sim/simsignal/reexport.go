// Package signal is the simulated replacement of os/signal.
package signal

import (
	"context"
	"os"

	"verif.local/sim/simrt"
)

type sub struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// Notify registers c with the calling process.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	t := simrt.Cur()
	if t == nil || t.Proc == nil {
		return
	}
	l, _ := t.Proc.Env.Get("signals").([]sub)
	t.Proc.Env.Set("signals", append(l, sub{c, sig}))
	t.Point("notify")
}

// Stop unregisters c.
func Stop(c chan<- os.Signal) {
	t := simrt.Cur()
	if t == nil || t.Proc == nil {
		return
	}
	l, _ := t.Proc.Env.Get("signals").([]sub)
	var n []sub
	for _, s := range l {
		if s.c != c {
			n = append(n, s)
		}
	}
	t.Proc.Env.Set("signals", n)
}

// Ignore, Ignored and Reset do nothing.
func Ignore(sig ...os.Signal)    {}
func Ignored(sig os.Signal) bool { return false }
func Reset(sig ...os.Signal)     {}

// NotifyContext returns a context that never gets a signal.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

// Ready reports whether the process handles the signal already.
func Ready(p *simrt.Proc) bool {
	l, _ := p.Env.Get("signals").([]sub)
	return len(l) > 0
}

// Send delivers a signal to a simulated process; without a handler it
// ends the process, as the default action does.
func Send(p *simrt.Proc, s os.Signal) {
	l, _ := p.Env.Get("signals").([]sub)
	hit := false
	for _, x := range l {
		match := len(x.sigs) == 0
		for _, y := range x.sigs {
			if y == s {
				match = true
			}
		}
		if match {
			hit = true
			select {
			case x.c <- s:
			default:
			}
		}
	}
	if !hit {
		p.Kill()
	}
}
