// Package runtime stands in for the standard runtime package under simulation.
package runtime

import "github.com/jcorbin/anansi/zz/sim"

// Gosched yields to another simulated task.
func Gosched() { sim.Yield() }

// NumGoroutine counts simulated tasks.
func NumGoroutine() int { return len(sim.S.ProgramTasks()) }

// GC does nothing.
func GC() {}

// SetFinalizer does nothing.
func SetFinalizer(obj, finalizer interface{}) {}

// LockOSThread does nothing.
func LockOSThread() {}

// UnlockOSThread does nothing.
func UnlockOSThread() {}

// SetBlockProfileRate does nothing.
func SetBlockProfileRate(rate int) {}

// SetMutexProfileFraction does nothing.
func SetMutexProfileFraction(rate int) int { return 0 }

// NumCgoCall is 0.
func NumCgoCall() int64 { return 0 }
