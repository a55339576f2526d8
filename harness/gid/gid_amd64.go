// Package gid tells goroutines apart.
package gid

// ID identifies the running goroutine among those there are.
func ID() uintptr
