// Code generated by tools/genshim; DO NOT EDIT.

package os

import real "os"

const (
	DevNull           = real.DevNull
	ModeAppend        = real.ModeAppend
	ModeCharDevice    = real.ModeCharDevice
	ModeDevice        = real.ModeDevice
	ModeDir           = real.ModeDir
	ModeExclusive     = real.ModeExclusive
	ModeIrregular     = real.ModeIrregular
	ModeNamedPipe     = real.ModeNamedPipe
	ModePerm          = real.ModePerm
	ModeSetgid        = real.ModeSetgid
	ModeSetuid        = real.ModeSetuid
	ModeSocket        = real.ModeSocket
	ModeSticky        = real.ModeSticky
	ModeSymlink       = real.ModeSymlink
	ModeTemporary     = real.ModeTemporary
	ModeType          = real.ModeType
	O_APPEND          = real.O_APPEND
	O_CREATE          = real.O_CREATE
	O_EXCL            = real.O_EXCL
	O_RDONLY          = real.O_RDONLY
	O_RDWR            = real.O_RDWR
	O_SYNC            = real.O_SYNC
	O_TRUNC           = real.O_TRUNC
	O_WRONLY          = real.O_WRONLY
	PathListSeparator = real.PathListSeparator
	PathSeparator     = real.PathSeparator
	SEEK_CUR          = real.SEEK_CUR
	SEEK_END          = real.SEEK_END
	SEEK_SET          = real.SEEK_SET
)

type (
	FileInfo     = real.FileInfo
	FileMode     = real.FileMode
	LinkError    = real.LinkError
	PathError    = real.PathError
	Signal       = real.Signal
	SyscallError = real.SyscallError
)

var (
	ErrClosed           = real.ErrClosed
	ErrDeadlineExceeded = real.ErrDeadlineExceeded
	ErrExist            = real.ErrExist
	ErrInvalid          = real.ErrInvalid
	ErrNoDeadline       = real.ErrNoDeadline
	ErrNoHandle         = real.ErrNoHandle
	ErrNotExist         = real.ErrNotExist
	ErrPermission       = real.ErrPermission
	ErrProcessDone      = real.ErrProcessDone
	Getpagesize         = real.Getpagesize
	Interrupt           = real.Interrupt
	IsExist             = real.IsExist
	IsNotExist          = real.IsNotExist
	IsPathSeparator     = real.IsPathSeparator
	IsPermission        = real.IsPermission
	IsTimeout           = real.IsTimeout
	Kill                = real.Kill
	NewSyscallError     = real.NewSyscallError
	SameFile            = real.SameFile
)
