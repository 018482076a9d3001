// Package log is package log without the output; Fatal ends the simulated program.
package log

import (
	"fmt"
	"io"
	real_ "log"

	"verif/simrt"
)

// Logger is log.Logger.
type Logger struct {
	prefix string
	flags  int
	w      io.Writer
}

var std = &Logger{}

// New is log.New.
func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{prefix, flags, w} }

// Default is log.Default.
func Default() *Logger { return std }

func (l *Logger) out() {
	if w := simrt.W; w != nil {
		w.Count("probe.log_lines")
	}
}

// Output is Logger.Output.
func (l *Logger) Output(int, string) error { l.out(); return nil }

// Print is Logger.Print.
func (l *Logger) Print(v ...any) { l.out() }

// Printf is Logger.Printf.
func (l *Logger) Printf(f string, v ...any) { l.out() }

// Println is Logger.Println.
func (l *Logger) Println(v ...any) { l.out() }

// Fatal is Logger.Fatal.
func (l *Logger) Fatal(v ...any) { fatal(fmt.Sprint(v...)) }

// Fatalf is Logger.Fatalf.
func (l *Logger) Fatalf(f string, v ...any) { fatal(fmt.Sprintf(f, v...)) }

// Fatalln is Logger.Fatalln.
func (l *Logger) Fatalln(v ...any) { fatal(fmt.Sprintln(v...)) }

// Panic is Logger.Panic.
func (l *Logger) Panic(v ...any) { panic(fmt.Sprint(v...)) }

// Panicf is Logger.Panicf.
func (l *Logger) Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }

// Panicln is Logger.Panicln.
func (l *Logger) Panicln(v ...any) { panic(fmt.Sprintln(v...)) }

// SetOutput is Logger.SetOutput.
func (l *Logger) SetOutput(w io.Writer) { l.w = w }

// SetPrefix is Logger.SetPrefix.
func (l *Logger) SetPrefix(p string) { l.prefix = p }

// SetFlags is Logger.SetFlags.
func (l *Logger) SetFlags(f int) { l.flags = f }

// Prefix is Logger.Prefix.
func (l *Logger) Prefix() string { return l.prefix }

// Flags is Logger.Flags.
func (l *Logger) Flags() int { return l.flags }

// Writer is Logger.Writer.
func (l *Logger) Writer() io.Writer { return io.Discard }

func fatal(msg string) {
	if w := simrt.W; w != nil {
		w.Ev("log.Fatal", msg)
	}
	simrt.Exit(1)
}

// Print is log.Print.
func Print(v ...any) { std.out() }

// Printf is log.Printf.
func Printf(f string, v ...any) { std.out() }

// Println is log.Println.
func Println(v ...any) { std.out() }

// Fatal is log.Fatal.
func Fatal(v ...any) { std.Fatal(v...) }

// Fatalf is log.Fatalf.
func Fatalf(f string, v ...any) { std.Fatalf(f, v...) }

// Fatalln is log.Fatalln.
func Fatalln(v ...any) { std.Fatalln(v...) }

// Panic is log.Panic.
func Panic(v ...any) { std.Panic(v...) }

// Panicf is log.Panicf.
func Panicf(f string, v ...any) { std.Panicf(f, v...) }

// Panicln is log.Panicln.
func Panicln(v ...any) { std.Panicln(v...) }

// Output is log.Output.
func Output(int, string) error { std.out(); return nil }

// SetOutput is log.SetOutput.
func SetOutput(w io.Writer) {}

// SetPrefix is log.SetPrefix.
func SetPrefix(string) {}

// SetFlags is log.SetFlags.
func SetFlags(int) {}

// Prefix is log.Prefix.
func Prefix() string { return "" }

// Flags is log.Flags.
func Flags() int { return real_.LstdFlags }

// Writer is log.Writer.
func Writer() io.Writer { return io.Discard }
