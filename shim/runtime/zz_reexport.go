// Code generated by tools/genshim; DO NOT EDIT.

package runtime

import real "runtime"

const (
	Compiler = real.Compiler
	GOARCH   = real.GOARCH
	GOOS     = real.GOOS
)

type (
	BlockProfileRecord = real.BlockProfileRecord
	Cleanup            = real.Cleanup
	Error              = real.Error
	Frame              = real.Frame
	Frames             = real.Frames
	Func               = real.Func
	MemProfileRecord   = real.MemProfileRecord
	MemStats           = real.MemStats
	PanicNilError      = real.PanicNilError
	Pinner             = real.Pinner
	StackRecord        = real.StackRecord
	TypeAssertionError = real.TypeAssertionError
)

var (
	Caller         = real.Caller
	Callers        = real.Callers
	CallersFrames  = real.CallersFrames
	FuncForPC      = real.FuncForPC
	GOMAXPROCS     = real.GOMAXPROCS
	GOROOT         = real.GOROOT
	Goexit         = real.Goexit
	KeepAlive      = real.KeepAlive
	MemProfile     = real.MemProfile
	MemProfileRate = real.MemProfileRate
	NumCPU         = real.NumCPU
	ReadMemStats   = real.ReadMemStats
	Stack          = real.Stack
	Version        = real.Version
)
