package h

import (
	"bufio"
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
)

// Edge is a transition of the model.
type Edge struct {
	From, To int
	Act      json.RawMessage
}

// Graph is the state graph TLC explored.
type Graph struct {
	States []json.RawMessage
	Init   []int
	Edges  []Edge
	Out    [][]int // edge numbers by source
	Cfg    json.RawMessage
}

type rawEdge struct {
	S json.RawMessage `json:"s"`
	T json.RawMessage `json:"t"`
	A json.RawMessage `json:"a"`
	L int             `json:"l"`

	Cfg json.RawMessage `json:"cfg"`
}

// Lines calls f for every line of a file.
func Lines(path string, f func([]byte)) {
	fd, err := os.Open(path)
	if err != nil {
		Die("%v", err)
	}
	defer fd.Close()

	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<28)

	for sc.Scan() {
		f(sc.Bytes())
	}

	if err := sc.Err(); err != nil {
		Die("%v", err)
	}
}

// Load reads the edges that TLC printed.
func Load(path string) *Graph {
	g := &Graph{}
	ids := map[string]int{}
	seen := map[string]bool{}
	id := func(s json.RawMessage) int {
		k := string(s)
		if n, ok := ids[k]; ok {
			return n
		}

		n := len(g.States)
		ids[k] = n
		g.States = append(g.States, append(json.RawMessage(nil), s...))
		g.Out = append(g.Out, nil)

		return n
	}
	init := map[int]bool{}

	Lines(path, func(b []byte) {
		var r rawEdge
		if err := json.Unmarshal(b, &r); err != nil {
			Die("bad edge %q: %v", b, err)
		}

		if r.Cfg != nil {
			g.Cfg = append(json.RawMessage(nil), r.Cfg...)

			return
		}

		k := string(bytes.Join([][]byte{r.S, r.T, r.A}, []byte{'|'}))
		from, to := id(r.S), id(r.T)

		if r.L == 1 {
			init[from] = true
		}

		if seen[k] {
			return
		}

		seen[k] = true

		g.Out[from] = append(g.Out[from], len(g.Edges))
		g.Edges = append(g.Edges, Edge{from, to, append(json.RawMessage(nil), r.A...)})
	})

	for i := range g.States {
		if init[i] {
			g.Init = append(g.Init, i)
		}
	}

	if len(g.Init) == 0 || len(g.Edges) == 0 {
		Die("no transitions in %s", path)
	}

	return g
}

// System is the code under test seen through the model's actions.
type System interface {
	// Do performs an action and compares its reply.  An error is a violation.
	Do(act json.RawMessage) error
	// End releases the system, checking what has to hold at the end.
	End() error
}

// Walker walks over a graph.
type Walker struct {
	G    *Graph
	New  func(init json.RawMessage) System
	Rng  *rand.Rand
	Name string
	Ctx  any // what else is needed to replay
	// MaxLen bounds the length of one walk.
	MaxLen int
	// Covered counts edges taken at least once.
	Covered int
	Steps   int
	Walks   int
}

func (w *Walker) fail(trace []json.RawMessage, init json.RawMessage, err error) {
	what := w.Name + ": " + err.Error()

	Env.Fail(w.Name, what, map[string]any{"walk": w.Name, "context": w.Ctx, "init": init, "actions": trace})
}

// run performs the walk and shortens it if it fails.
func (w *Walker) run(init int, path []int) bool {
	w.Walks++

	n, err := w.try(init, path)
	w.Steps += n

	if err == nil {
		return true
	}

	best, bestErr := path[:min(n, len(path))], err

	// Shorten: drop a stretch and rejoin where the graph allows it.
	for again, tries := true, 0; again && tries < 200; {
		again = false

		for i := 0; i < len(best) && tries < 200; i++ {
			from := w.G.Edges[best[i]].From

			for j := len(best); j > i; j-- {
				var to int
				if j == len(best) {
					continue
				}

				to = w.G.Edges[best[j]].From
				if from != to {
					continue
				}

				cand := append(append([]int(nil), best[:i]...), best[j:]...)
				tries++

				if m, e := w.try(init, cand); e != nil {
					best, bestErr, again = cand[:min(m, len(cand))], e, true

					break
				}
			}

			if again {
				break
			}
		}
	}

	var tr []json.RawMessage
	for _, e := range best {
		tr = append(tr, w.G.Edges[e].Act)
	}

	w.fail(tr, w.G.States[init], bestErr)

	return false
}

func (w *Walker) try(init int, path []int) (n int, err error) {
	var sys System

	e := Timed(func() {
		sys = w.New(w.G.States[init])

		for _, p := range path {
			n++

			if err = sys.Do(w.G.Edges[p].Act); err != nil {
				break
			}
		}

		if e := sys.End(); err == nil {
			err = e
		}
	})
	if e != nil {
		err = e
	}

	return n, err
}

// Cover takes every edge at least once.
func (w *Walker) Cover() {
	g := w.G
	left := make([]int, len(g.Out)) // uncovered edges by source
	done := make([]bool, len(g.Edges))
	total := 0

	for i, o := range g.Out {
		left[i] = len(o)
		total += len(o)
	}

	if w.MaxLen == 0 {
		w.MaxLen = 60
	}

	// shortest ways from the initial states
	parent := make([]int, len(g.Out))
	root := make([]int, len(g.Out))

	for i := range parent {
		parent[i], root[i] = -1, -1
	}

	order := append([]int(nil), g.Init...)
	for _, i := range g.Init {
		root[i] = i
	}

	for qi := 0; qi < len(order); qi++ {
		for _, e := range g.Out[order[qi]] {
			if t := g.Edges[e].To; root[t] < 0 {
				root[t], parent[t] = root[order[qi]], e
				order = append(order, t)
			}
		}
	}

	for i := range root {
		if root[i] < 0 && left[i] > 0 {
			Die("%s: a state cannot be reached", w.Name)
		}
	}

	mark := make([]int, len(g.Out))
	via := make([]int, len(g.Out))
	gen, next := 0, 0

	for total > 0 && !Env.Failed() {
		for left[order[next]] == 0 {
			next++
		}

		cur := order[next]
		init := root[cur]
		path := g.way(cur, parent)

		for len(path) < w.MaxLen || left[cur] > 0 && len(path) < 2*w.MaxLen {
			if left[cur] > 0 {
				// take an uncovered edge at random
				o := g.Out[cur]
				k := w.Rng.Intn(len(o))

				for done[o[k]] {
					k = (k + 1) % len(o)
				}

				done[o[k]] = true
				left[cur]--
				total--
				w.Covered++

				path = append(path, o[k])
				cur = g.Edges[o[k]].To

				continue
			}

			// go to a state nearby with one
			gen++
			queue := []int{cur}
			mark[cur] = gen
			found := -1

			for qi := 0; qi < len(queue) && qi < 200 && found < 0; qi++ {
				for _, e := range g.Out[queue[qi]] {
					t := g.Edges[e].To
					if mark[t] == gen {
						continue
					}

					mark[t] = gen
					via[t] = e

					if left[t] > 0 {
						found = t

						break
					}

					queue = append(queue, t)
				}
			}

			if found < 0 {
				break
			}

			var rev []int
			for t := found; t != cur; t = g.Edges[via[t]].From {
				rev = append(rev, via[t])
			}

			for i := len(rev) - 1; i >= 0; i-- {
				path = append(path, rev[i])
			}

			cur = found
		}

		if !w.run(init, path) {
			return
		}
	}
}

// way returns the edges from an initial state to s.
func (g *Graph) way(s int, parent []int) []int {
	var rev []int
	for ; parent[s] >= 0; s = g.Edges[parent[s]].From {
		rev = append(rev, parent[s])
	}

	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}

	return rev
}

// Random takes random walks.
func (w *Walker) Random(walks, length int) {
	g := w.G

	for i := 0; i < walks && !Env.Failed(); i++ {
		if !w.random(g.Init[w.Rng.Intn(len(g.Init))], length) {
			return
		}
	}
}

// RandomFrom takes random walks from an initial state.
func (w *Walker) RandomFrom(init, walks, length int) {
	for i := 0; i < walks && !Env.Failed(); i++ {
		if !w.random(init, length) {
			return
		}
	}
}

func (w *Walker) random(init, length int) bool {
	g := w.G
	cur := init

	var path []int

	for len(path) < length {
		o := g.Out[cur]
		if len(o) == 0 {
			break
		}

		e := o[w.Rng.Intn(len(o))]
		path = append(path, e)
		cur = g.Edges[e].To
	}

	return w.run(init, path)
}

// Done adds the walker's numbers to the report.
func (w *Walker) Done() {
	Env.Count("walks", w.Walks)
	Env.Count("steps", w.Steps)
	Env.Count("edges_covered", w.Covered)
}
