// Package pprof stands in for runtime/pprof under simulation.
package pprof

import (
	"errors"
	"io"

	"github.com/jcorbin/anansi/zz/sim"
)

// Profile is a stand-in profile.
type Profile struct{ name string }

var all = func() (r []*Profile) {
	for _, n := range []string{"allocs", "block", "goroutine", "heap", "mutex", "threadcreate"} {
		r = append(r, &Profile{n})
	}
	return r
}()

// Name returns the name.
func (p *Profile) Name() string { return p.name }

// Count is fixed.
func (p *Profile) Count() int { return 1 }

// WriteTo writes a fake profile.
func (p *Profile) WriteTo(w io.Writer, debug int) error {
	head, rest := sim.S.Profile(p.name)
	if _, err := io.WriteString(w, head); err != nil {
		return err
	}
	_, err := io.WriteString(w, rest)
	sim.S.Profiled(p.name)
	return err
}

// Lookup finds a profile.
func Lookup(name string) *Profile {
	for _, p := range all {
		if p.name == name {
			return p
		}
	}
	return nil
}

// Profiles lists all.
func Profiles() []*Profile { return append([]*Profile(nil), all...) }

// StartCPUProfile starts a fake profile.
func StartCPUProfile(w io.Writer) error {
	if sim.S.CPUProfile != nil {
		return errors.New("cpu profiling already in use")
	}
	sim.S.CPUProfile = w
	return nil
}

// StopCPUProfile stops the fake profile.
func StopCPUProfile() {
	if w := sim.S.CPUProfile; w != nil {
		sim.S.CPUProfile = nil
		head, rest := sim.S.Profile("CPU")
		io.WriteString(w, head+rest)
		sim.S.Profiled("CPU")
	}
}

// WriteHeapProfile writes a fake profile.
func WriteHeapProfile(w io.Writer) error { return Lookup("heap").WriteTo(w, 0) }
