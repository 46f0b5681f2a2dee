package sched

// getg identifies the calling goroutine.
func getg() uintptr
