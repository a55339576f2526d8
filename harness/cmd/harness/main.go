// Command harness binds the specifications in /verif/spec to the code in /repo.
//
//	harness SUBCOMMAND -prop C01 -tier quick -seed 1 -out report.json [args]
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"

	"verif/h"
)

// Ctx is what a subcommand is given.
type Ctx struct {
	Args []string
	Rng  *rand.Rand
	Seed int64
}

// Arg returns argument n.
func (c *Ctx) Arg(n int) string {
	if n >= len(c.Args) {
		h.Die("argument %d is missing", n)
	}

	return c.Args[n]
}

var commands = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		var n []string
		for k := range commands {
			n = append(n, k)
		}

		sort.Strings(n)
		fmt.Fprintln(os.Stderr, "usage: harness", n)
		os.Exit(3)
	}

	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", "/dev/null", "report")
	prog := fs.String("progress", "", "progress file")
	_ = fs.Parse(os.Args[2:])

	h.Setup(*prop, *tier, *seed, *out)
	h.SetProgress(*prog)

	commands[os.Args[1]](&Ctx{fs.Args(), rand.New(rand.NewSource(*seed)), *seed}) //nolint:gosec
	h.Env.Finish()
}
