// Package simruntime replaces the scheduling functions of runtime.
package simruntime

import "verifsim/rt"

func Gosched()             { rt.Pass() }
func GC()                  {}
func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func NumGoroutine() int    { return rt.NumTasks() }
