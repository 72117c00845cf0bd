// Package flag stands in for the standard flag package under simulation.
package flag

import (
	real "flag"
	"io"

	"github.com/jcorbin/anansi/zz/shim/os"
)

func initCL() *real.FlagSet {
	real.CommandLine = real.NewFlagSet("prog", real.ContinueOnError)
	real.CommandLine.SetOutput(io.Discard)
	return real.CommandLine
}

// CommandLine is the default set of flags.
var CommandLine = initCL()

var (
	parsed bool
	base   []*real.Flag // flags defined by package initialization
	reset  bool
)

// SimReset sets all flags to their defaults, and drops those that were added
// since the process started.
func SimReset() {
	if !reset {
		CommandLine.VisitAll(func(f *real.Flag) { base = append(base, f) })
		reset = true
	}
	parsed = false
	CommandLine = initCL()
	for _, f := range base {
		_ = f.Value.Set(f.DefValue)
		CommandLine.Var(f.Value, f.Name, f.Usage)
		CommandLine.Lookup(f.Name).DefValue = f.DefValue
	}
}

// Parse parses the simulated command line.
func Parse() {
	parsed = true
	switch err := CommandLine.Parse(os.Args[1:]); err {
	case nil:
	case real.ErrHelp:
		os.Exit(0)
	default:
		os.Exit(2)
	}
}

// Parsed reports whether Parse was called.
func Parsed() bool { return parsed }
