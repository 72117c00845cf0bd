// Package signal stands in for os/signal under simulation.
package signal

import (
	"github.com/jcorbin/anansi/zz/shim/context"
	"os"
	"syscall"

	"github.com/jcorbin/anansi/zz/sim"
)

func nums(sig []os.Signal) []syscall.Signal {
	var r []syscall.Signal
	for _, s := range sig {
		if n, ok := s.(syscall.Signal); ok {
			r = append(r, n)
		}
	}
	return r
}

// Notify relays signals to c.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if sim.S == nil {
		return
	}
	ns := nums(sig)
	if len(ns) == 0 && len(sig) > 0 {
		return
	}
	sim.S.K.Notify(c, func(n syscall.Signal) bool { return sim.TrySend(c, os.Signal(n)) }, ns...)
}

// Stop stops relaying to c.
func Stop(c chan<- os.Signal) {
	if sim.S != nil {
		sim.S.K.StopNotify(c)
	}
}

// Reset undoes Notify for the given signals.
func Reset(sig ...os.Signal) {
	if sim.S != nil {
		sim.S.K.ResetSignals(nums(sig)...)
	}
}

// Ignore makes signals be ignored.
func Ignore(sig ...os.Signal) {
	if sim.S != nil {
		sim.S.K.ResetSignals(nums(sig)...)
		sim.S.K.Notify(new(int), func(syscall.Signal) bool { return true }, nums(sig)...)
	}
}

// NotifyContext cancels a context on a signal.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	id := new(int)
	sim.S.K.Notify(id, func(syscall.Signal) bool { cancel(); return true }, nums(sig)...)
	return ctx, func() { sim.S.K.StopNotify(id); cancel() }
}
