// Package runtime is package runtime for simulated tasks.
package runtime

import (
	real_ "runtime"

	"verif/simrt"
)

// Gosched yields.
func Gosched() {
	if w := simrt.W; w != nil {
		w.Sleep(0, "gosched")
	}
}

// Goexit ends the task.
func Goexit() { real_.Goexit() }

// NumGoroutine counts live tasks.
func NumGoroutine() int {
	n := 0
	if w := simrt.W; w != nil {
		n, _ = w.LiveLib()
	}
	return n
}

// GC does nothing.
func GC() {}

// SetFinalizer does nothing: the simulated program never runs finalizers.
func SetFinalizer(obj, finalizer any) {}
