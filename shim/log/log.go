// Package log stands in for the standard log package under simulation.
package log

import (
	"fmt"
	"io"
	real "log"

	"github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/shim/sync"
	"github.com/jcorbin/anansi/zz/shim/time"
)

// Flags of the standard logger.
const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = real.LstdFlags
)

// Logger is a logger.
type Logger struct {
	mu     sync.Mutex
	prefix string
	flag   int
	out    io.Writer
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return os.Stderr.Write(p) }

var std = New(stderr{}, "", LstdFlags)

type state struct {
	prefix string
	flag   int
	out    io.Writer
}

var saved *state

// SimReset restores the standard logger as it was when first called.
func SimReset() {
	std.mu = sync.Mutex{}
	if saved == nil {
		saved = &state{std.prefix, std.flag, std.out}
		return
	}
	std.prefix, std.flag, std.out = saved.prefix, saved.flag, saved.out
}

// New makes a logger.
func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}

// Default is the standard logger.
func Default() *Logger { return std }

func (l *Logger) format(s string) []byte {
	var b []byte
	if l.flag&Lmsgprefix == 0 {
		b = append(b, l.prefix...)
	}
	if l.flag&(Ldate|Ltime|Lmicroseconds) != 0 {
		t := time.Now()
		if l.flag&Ldate != 0 {
			b = t.AppendFormat(b, "2006/01/02 ")
		}
		if l.flag&Lmicroseconds != 0 {
			b = t.AppendFormat(b, "15:04:05.000000 ")
		} else if l.flag&Ltime != 0 {
			b = t.AppendFormat(b, "15:04:05 ")
		}
	}
	if l.flag&(Lshortfile|Llongfile) != 0 {
		b = append(b, "file.go:1: "...)
	}
	if l.flag&Lmsgprefix != 0 {
		b = append(b, l.prefix...)
	}
	b = append(b, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b = append(b, '\n')
	}
	return b
}

// Output writes a message.
func (l *Logger) Output(calldepth int, s string) error {
	b := l.format(s)
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write(b)
	return err
}

// SetOutput sets the destination.
func (l *Logger) SetOutput(w io.Writer) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.out = w
}

// Writer returns the destination.
func (l *Logger) Writer() io.Writer { return l.out }

// SetFlags sets the flags.
func (l *Logger) SetFlags(flag int) { l.flag = flag }

// Flags returns the flags.
func (l *Logger) Flags() int { return l.flag }

// SetPrefix sets the prefix.
func (l *Logger) SetPrefix(p string) { l.prefix = p }

// Prefix returns the prefix.
func (l *Logger) Prefix() string { return l.prefix }

func (l *Logger) Printf(f string, v ...interface{}) { _ = l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Print(v ...interface{})            { _ = l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Println(v ...interface{})          { _ = l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); os.Exit(1) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); os.Exit(1) }
func (l *Logger) Panicf(f string, v ...interface{}) { l.Printf(f, v...); panic(fmt.Sprintf(f, v...)) }
func (l *Logger) Panic(v ...interface{})            { l.Print(v...); panic(fmt.Sprint(v...)) }
func (l *Logger) Panicln(v ...interface{})          { l.Println(v...); panic(fmt.Sprintln(v...)) }

func SetOutput(w io.Writer)             { std.SetOutput(w) }
func SetFlags(flag int)                 { std.SetFlags(flag) }
func Flags() int                        { return std.Flags() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Prefix() string                    { return std.Prefix() }
func Writer() io.Writer                 { return std.Writer() }
func Output(depth int, s string) error  { return std.Output(depth, s) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Print(v ...interface{})            { std.Print(v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
