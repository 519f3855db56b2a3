// Package vruntime replaces the functions of package runtime that depend on the scheduler.
package vruntime

import (
	"runtime"

	"verifmc/vsched"
)

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return vsched.NumCPU() }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	if vsched.Active() {
		return vsched.NumCPU()
	}
	return runtime.GOMAXPROCS(n)
}

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int { return runtime.NumGoroutine() }

// Gosched replaces runtime.Gosched.
func Gosched() { vsched.Yield() }
