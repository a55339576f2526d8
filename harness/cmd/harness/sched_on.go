//go:build sched

package main

import "github.com/bodgit/sevenzip/verifsched"

func init() { hooked = func(f func()) { verifsched.Hook.Store(&f) } }
