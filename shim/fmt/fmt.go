// Package fmt stands in for the standard fmt package under simulation.
package fmt

import (
	real "fmt"

	"github.com/jcorbin/anansi/zz/shim/os"
)

// Printf prints to the simulated standard output.
func Printf(f string, v ...interface{}) (int, error) { return real.Fprintf(os.Stdout, f, v...) }

// Print prints to the simulated standard output.
func Print(v ...interface{}) (int, error) { return real.Fprint(os.Stdout, v...) }

// Println prints to the simulated standard output.
func Println(v ...interface{}) (int, error) { return real.Fprintln(os.Stdout, v...) }

// Scan reads from the simulated standard input.
func Scan(v ...interface{}) (int, error) { return real.Fscan(os.Stdin, v...) }

// Scanf reads from the simulated standard input.
func Scanf(f string, v ...interface{}) (int, error) { return real.Fscanf(os.Stdin, f, v...) }

// Scanln reads from the simulated standard input.
func Scanln(v ...interface{}) (int, error) { return real.Fscanln(os.Stdin, v...) }
