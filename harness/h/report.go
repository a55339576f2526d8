// Package h is the common part of the conformance harness.
package h

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Violation is a difference between the model and the code.
type Violation struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Key      string `json:"key"` // identifies the failing input for the list of known findings
	Replay   any    `json:"replay"`
}

// Report collects what a run did.
type Report struct {
	mu         sync.Mutex
	Property   string
	Tier       string
	Seed       int64
	Counts     map[string]int64
	Samples    []any
	Violations []Violation
	out        string
	max        int
}

// Env is the one report of the process.
var Env = &Report{Counts: map[string]int64{}, max: 20}

// Setup prepares the report.
func Setup(property, tier string, seed int64, out string) {
	Env.Property, Env.Tier, Env.Seed, Env.out = property, tier, seed, out
}

// Quick tells whether this is the quick tier.
func (r *Report) Quick() bool { return r.Tier != "thorough" }

// Count adds to a counter.
func (r *Report) Count(name string, n int) {
	r.mu.Lock()
	r.Counts[name] += int64(n)
	r.mu.Unlock()
}

// Sample keeps a few examples of what was run.
func (r *Report) Sample(v any) {
	r.mu.Lock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

// Fail records a violation.
func (r *Report) Fail(key, what string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()

	for _, v := range r.Violations {
		if v.Key == key {
			return
		}
	}

	if len(r.Violations) < r.max {
		r.Violations = append(r.Violations, Violation{r.Property, what, key, replay})
	}
}

// Failed tells whether enough was found to stop.
func (r *Report) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()

	return len(r.Violations) >= 3
}

// Any tells whether anything was found.
func (r *Report) Any() bool {
	r.mu.Lock()
	defer r.mu.Unlock()

	return len(r.Violations) > 0
}

// Finish writes the report and exits.
func (r *Report) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()

	b, err := json.MarshalIndent(map[string]any{
		"counts": r.Counts, "samples": r.Samples, "violations": r.Violations, "done": true,
	}, "", " ")
	if err != nil {
		panic(err)
	}

	if err := os.WriteFile(r.out, b, 0o644); err != nil {
		panic(err)
	}

	if len(r.Violations) > 0 {
		os.Exit(1)
	}

	os.Exit(0)
}

// Die reports a failure of the harness itself.
func Die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", a...)
	os.Exit(3)
}

// Panic is a panic of the code under test.
type Panic struct {
	Value any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Value, p.Stack) }

// Harness failures are told from those of the code under test by where the
// panic started: the first frame below runtime that is not third-party.
func ours(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false

	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true

			continue
		}

		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}

		if strings.HasPrefix(l, "github.com/bodgit/sevenzip") {
			return false
		}

		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "main.") {
			return true
		}
	}

	return true
}

// Guard runs f and turns a panic of the code under test into an error.  Panics
// of the harness end the process.
func Guard(f func()) (err error) {
	defer func() {
		if v := recover(); v != nil {
			st := string(debug.Stack())
			if ours(st) {
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", v, st)
				os.Exit(3)
			}

			err = &Panic{v, trimStack(st)}
		}
	}()

	f()

	return nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 30 {
		l = l[:30]
	}

	return strings.Join(l, "\n")
}

// Deadline is how long a single guarded operation may take.  It is orders of
// magnitude above what any of them needs.
var Deadline = 40 * time.Second

// ErrHang is returned for an operation that did not end.
type ErrHang struct{ Stack string }

func (e *ErrHang) Error() string { return "did not end\n" + e.Stack }

// Timed runs f in a goroutine of its own and waits for it to end.  A hang is
// only believed if the deadline passes twice without the process having been
// starved: a ticker has to have run normally meanwhile.
func Timed(f func()) error {
	done := make(chan error, 1)

	go func() { done <- Guard(f) }()

	t := time.NewTimer(Deadline)
	defer t.Stop()

	select {
	case err := <-done:
		return err
	case <-t.C:
	}

	if !Steady() {
		Die("the machine is too slow to tell a hang")
	}

	select {
	case err := <-done:
		return err
	default:
	}

	return &ErrHang{Stacks()}
}

// Stacks are those of all goroutines.
func Stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]

	return string(buf[:min(len(buf), 6000)])
}

// Steady waits for some time and tells whether the process got to run in it.
func Steady() bool {
	ticks := 0

	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); ticks++ {
		time.Sleep(100 * time.Millisecond)
	}

	return ticks >= 20
}

// Progress writes what is about to be run, for the case that the process dies.
var progress string

// SetProgress names the file for Progress.
func SetProgress(path string) { progress = path }

// Progress records the current case.
func Progress(v any) {
	if progress == "" {
		return
	}

	b, _ := json.Marshal(v)
	_ = os.WriteFile(progress, b, 0o644)
}

// Scratch makes a scratch directory which Cleanup removes.
func Scratch() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		Die("VERIF_SCRATCH is not set")
	}

	d, err := os.MkdirTemp(base, "h")
	if err != nil {
		Die("%v", err)
	}

	return d
}

// JoinScratch is filepath.Join.
func JoinScratch(e ...string) string { return filepath.Join(e...) }
