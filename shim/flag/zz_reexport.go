// Code generated by tools/genshim; DO NOT EDIT.

package flag

import real "flag"

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ExitOnError
	PanicOnError    = real.PanicOnError
)

type (
	ErrorHandling = real.ErrorHandling
	Flag          = real.Flag
	FlagSet       = real.FlagSet
	Getter        = real.Getter
	Value         = real.Value
)

var (
	Arg           = real.Arg
	Args          = real.Args
	Bool          = real.Bool
	BoolFunc      = real.BoolFunc
	BoolVar       = real.BoolVar
	Duration      = real.Duration
	DurationVar   = real.DurationVar
	ErrHelp       = real.ErrHelp
	Float64       = real.Float64
	Float64Var    = real.Float64Var
	Func          = real.Func
	Int           = real.Int
	Int64         = real.Int64
	Int64Var      = real.Int64Var
	IntVar        = real.IntVar
	Lookup        = real.Lookup
	NArg          = real.NArg
	NFlag         = real.NFlag
	NewFlagSet    = real.NewFlagSet
	PrintDefaults = real.PrintDefaults
	Set           = real.Set
	String        = real.String
	StringVar     = real.StringVar
	TextVar       = real.TextVar
	Uint          = real.Uint
	Uint64        = real.Uint64
	Uint64Var     = real.Uint64Var
	UintVar       = real.UintVar
	UnquoteUsage  = real.UnquoteUsage
	Usage         = real.Usage
	Var           = real.Var
	Visit         = real.Visit
	VisitAll      = real.VisitAll
)
