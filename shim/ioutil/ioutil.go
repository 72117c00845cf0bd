// Package ioutil stands in for io/ioutil under simulation.
package ioutil

import (
	"io"

	"github.com/jcorbin/anansi/zz/shim/os"
)

// Discard discards.
var Discard = io.Discard

// ReadAll reads everything.
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

// NopCloser adds a Close method.
func NopCloser(r io.Reader) io.ReadCloser { return io.NopCloser(r) }

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// TempFile makes a temporary file.
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
