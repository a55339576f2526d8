package h

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
)

// Cases runs f for every line of the files in parallel.  f returns a violation,
// which is reported with its case.
func Cases(paths []string, f func(n int, line []byte) error) {
	CasesN(paths, runtime.NumCPU(), f)
}

// CasesN is Cases with a number of workers.
func CasesN(paths []string, workers int, f func(n int, line []byte) error) {
	var lines [][]byte

	for _, p := range paths {
		Lines(p, func(b []byte) { lines = append(lines, append([]byte(nil), b...)) })
	}

	if len(lines) == 0 {
		Die("no cases in %v", paths)
	}

	var wg sync.WaitGroup

	next := make(chan int)

	for i := 0; i < workers; i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for n := range next {
				if Env.Failed() {
					continue
				}

				var err error

				if e := Timed(func() { err = f(n, lines[n]) }); e != nil {
					err = e
				}

				Env.Count("cases", 1)

				if err != nil {
					Env.Fail(string(lines[n]), fmt.Sprintf("%v in the case %s", err, clip(lines[n])), json.RawMessage(lines[n]))
				}
			}
		}()
	}

	for n := range lines {
		next <- n
	}

	close(next)
	wg.Wait()

	for i := 0; i < 3; i++ {
		Env.Sample(json.RawMessage(lines[len(lines)*i/3]))
	}
}

func clip(b []byte) string {
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}

	return string(b)
}

// Parallel runs f for 0 to n-1.
func Parallel(n int, f func(int)) {
	var wg sync.WaitGroup

	next := make(chan int)

	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for k := range next {
				if !Env.Failed() {
					f(k)
				}
			}
		}()
	}

	for k := 0; k < n; k++ {
		next <- k
	}

	close(next)
	wg.Wait()
}
