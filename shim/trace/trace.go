// Package trace stands in for runtime/trace under simulation.
package trace

import (
	"errors"
	"io"

	"github.com/jcorbin/anansi/zz/sim"
)

// Start starts a fake trace.
func Start(w io.Writer) error {
	if sim.S.Trace != nil {
		return errors.New("tracing already enabled")
	}
	sim.S.Trace = w
	head, _ := sim.S.Profile("Trace")
	io.WriteString(w, head)
	return nil
}

// Stop stops the fake trace.
func Stop() {
	if w := sim.S.Trace; w != nil {
		sim.S.Trace = nil
		_, rest := sim.S.Profile("Trace")
		io.WriteString(w, rest)
		sim.S.Profiled("Trace")
	}
}

// IsEnabled reports whether the fake trace runs.
func IsEnabled() bool { return sim.S.Trace != nil }
