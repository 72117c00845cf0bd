// Code generated by tools/genshim; DO NOT EDIT.

package io

import real "io"

const (
	SeekCurrent = real.SeekCurrent
	SeekEnd     = real.SeekEnd
	SeekStart   = real.SeekStart
)

type (
	ByteReader      = real.ByteReader
	ByteScanner     = real.ByteScanner
	ByteWriter      = real.ByteWriter
	Closer          = real.Closer
	LimitedReader   = real.LimitedReader
	OffsetWriter    = real.OffsetWriter
	ReadCloser      = real.ReadCloser
	ReadSeekCloser  = real.ReadSeekCloser
	ReadSeeker      = real.ReadSeeker
	ReadWriteCloser = real.ReadWriteCloser
	ReadWriteSeeker = real.ReadWriteSeeker
	ReadWriter      = real.ReadWriter
	Reader          = real.Reader
	ReaderAt        = real.ReaderAt
	ReaderFrom      = real.ReaderFrom
	RuneReader      = real.RuneReader
	RuneScanner     = real.RuneScanner
	SectionReader   = real.SectionReader
	Seeker          = real.Seeker
	StringWriter    = real.StringWriter
	WriteCloser     = real.WriteCloser
	WriteSeeker     = real.WriteSeeker
	Writer          = real.Writer
	WriterAt        = real.WriterAt
	WriterTo        = real.WriterTo
)

var (
	Copy             = real.Copy
	CopyBuffer       = real.CopyBuffer
	CopyN            = real.CopyN
	Discard          = real.Discard
	EOF              = real.EOF
	ErrClosedPipe    = real.ErrClosedPipe
	ErrNoProgress    = real.ErrNoProgress
	ErrShortBuffer   = real.ErrShortBuffer
	ErrShortWrite    = real.ErrShortWrite
	ErrUnexpectedEOF = real.ErrUnexpectedEOF
	LimitReader      = real.LimitReader
	MultiReader      = real.MultiReader
	MultiWriter      = real.MultiWriter
	NewOffsetWriter  = real.NewOffsetWriter
	NewSectionReader = real.NewSectionReader
	NopCloser        = real.NopCloser
	ReadAll          = real.ReadAll
	ReadAtLeast      = real.ReadAtLeast
	ReadFull         = real.ReadFull
	TeeReader        = real.TeeReader
	WriteString      = real.WriteString
)
