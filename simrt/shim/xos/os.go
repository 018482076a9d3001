// Package os is package os; Exit ends the simulated program.
package os

import (
	real_ "os"

	"verif/simrt"
)

// Exit is os.Exit.
func Exit(code int) { simrt.Exit(code) }

var null, _ = real_.OpenFile(real_.DevNull, real_.O_RDWR, 0)

// Stdin, Stdout and Stderr go nowhere.
var (
	Stdin  = null
	Stdout = null
	Stderr = null
	Args   = real_.Args
)

// Getpid is os.Getpid.
func Getpid() int { return 4242 }

// Getppid is os.Getppid.
func Getppid() int { return 4241 }

// Hostname is os.Hostname.
func Hostname() (string, error) { return "client", nil }

// Getenv is os.Getenv: the simulated program has no environment.
func Getenv(string) string { return "" }

// LookupEnv is os.LookupEnv.
func LookupEnv(string) (string, bool) { return "", false }

// Environ is os.Environ.
func Environ() []string { return nil }
