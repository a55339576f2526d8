//go:build !amd64

// Package gid tells goroutines apart.
package gid

import (
	"bytes"
	"runtime"
	"strconv"
)

// ID identifies the running goroutine among those there are.
func ID() uintptr {
	var b [64]byte

	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	s = s[:bytes.IndexByte(s, ' ')]
	n, _ := strconv.ParseUint(string(s), 10, 64)

	return uintptr(n)
}
