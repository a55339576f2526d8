package h

import (
	"encoding/json"
	"fmt"
	"math/rand"
)

// Reactor is the code under test seen through the operations of a model that
// leaves some of the outcome to the code.
type Reactor interface {
	// Do performs an operation and returns what was observed.  An error is a
	// violation by itself.
	Do(op json.RawMessage) (obs map[string]any, err error)
	End() error
}

// Adaptive walks over a graph whose labels have the form {"op":..., "obs":...},
// following the edges that agree with what is observed.
type Adaptive struct {
	G    *Graph
	New  func(init json.RawMessage) Reactor
	Rng  *rand.Rand
	Name string
	Ctx  any
	// Weight makes operations more likely, 1 if it is nil.
	Weight func(op json.RawMessage) int

	Walks, Steps int
	ix           *AdaptiveIndex
}

type choice struct {
	op    json.RawMessage
	byObs map[string]int // edges by observation
}

// AdaptiveIndex holds the operations possible in each state.
type AdaptiveIndex struct {
	states [][]choice
	taken  []int32
}

// Index prepares a graph.
func (g *Graph) Index() *AdaptiveIndex {
	ix := &AdaptiveIndex{states: make([][]choice, len(g.Out)), taken: make([]int32, len(g.Edges))}

	for s, out := range g.Out {
		at := map[string]int{}

		for _, e := range out {
			var l struct{ Op, Obs json.RawMessage }
			if err := json.Unmarshal(g.Edges[e].Act, &l); err != nil || l.Op == nil || l.Obs == nil {
				Die("bad label %s", g.Edges[e].Act)
			}

			i, ok := at[string(l.Op)]
			if !ok {
				i = len(ix.states[s])
				at[string(l.Op)] = i
				ix.states[s] = append(ix.states[s], choice{l.Op, map[string]int{}})
			}

			if _, ok := ix.states[s][i].byObs[string(l.Obs)]; ok {
				Die("two edges for %s", g.Edges[e].Act)
			}

			ix.states[s][i].byObs[string(l.Obs)] = e
		}
	}

	return ix
}

// Run takes walks.
func (w *Adaptive) Run(ix *AdaptiveIndex, walks, length int) {
	w.ix = ix

	for i := 0; i < walks && !Env.Failed(); i++ {
		if !w.walk(length) {
			return
		}
	}
}

func (w *Adaptive) walk(length int) bool {
	init := w.G.Init[w.Rng.Intn(len(w.G.Init))]
	cur := init
	w.Walks++

	type step struct {
		Op  json.RawMessage `json:"op"`
		Obs map[string]any  `json:"obs"`
	}

	var (
		trace []step
		bad   error
	)

	e := Timed(func() {
		sys := w.New(w.G.States[init])

		for n := 0; n < length && bad == nil; n++ {
			cs := w.ix.states[cur]
			if len(cs) == 0 {
				break
			}

			total := 0
			for _, c := range cs {
				total += w.weight(c.op)
			}

			k := w.Rng.Intn(total)
			i := 0

			for ; k >= w.weight(cs[i].op); i++ {
				k -= w.weight(cs[i].op)
			}

			w.Steps++

			obs, err := sys.Do(cs[i].op)
			trace = append(trace, step{cs[i].op, obs})

			if err != nil {
				bad = fmt.Errorf("%s: %w", cs[i].op, err)

				break
			}

			b, _ := json.Marshal(obs)

			e, ok := cs[i].byObs[string(b)]
			if !ok {
				bad = fmt.Errorf("%s: the model allows no %s in %s", cs[i].op, b, clip(w.G.States[cur]))

				break
			}

			cur = w.G.Edges[e].To
		}

		if err := sys.End(); err != nil && bad == nil {
			bad = err
		}
	})
	if e != nil {
		bad = e
	}

	if bad != nil {
		Env.Fail(w.Name, w.Name+": "+bad.Error(), map[string]any{"walk": w.Name, "context": w.Ctx, "trace": trace})

		return false
	}

	return true
}

func (w *Adaptive) weight(op json.RawMessage) int {
	if w.Weight == nil {
		return 1
	}

	return w.Weight(op)
}

// Done adds the numbers of the walks to the report.
func (w *Adaptive) Done() {
	Env.Count("walks", w.Walks)
	Env.Count("steps", w.Steps)
}
