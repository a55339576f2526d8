package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["concpool"] = concPoolCmd
	commands["conctasks"] = concTasksCmd
	commands["concfree"] = concFreeCmd
}

type concVisit struct {
	S int `json:"s"`
	I int `json:"i"`
	M int `json:"m"`
}

type concCase struct {
	Streams [][]int                `json:"streams"`
	Prog    map[string][]concVisit `json:"prog"`
}

type concEvent struct {
	Op string `json:"op"`
	P  int    `json:"p"`
	D  int    `json:"d,omitempty"`
	N  int    `json:"n,omitempty"`
}

type concTrace struct {
	ID   int           `json:"id"`
	Prog [][]concVisit `json:"prog"`
	Ev   []concEvent   `json:"ev"`
}

// concLog is what goroutines were seen to do.
type concLog struct {
	mu  sync.Mutex
	ev  []concEvent
	num map[*probe]int
}

func (l *concLog) add(e concEvent) {
	l.mu.Lock()
	defer l.mu.Unlock()

	if e.Op == "use" {
		// Only the first one tells something.
		for i := len(l.ev) - 1; i >= 0; i-- {
			if l.ev[i].P == e.P {
				if l.ev[i] == e {
					return
				}

				break
			}
		}
	}

	l.ev = append(l.ev, e)
}

const concUnit = 3

// concPoolRun runs the programs on an archive under the policy.
func concPoolRun(a *poolArchive, progs [][]concVisit, choose policy, rng *rand.Rand) ([]concEvent, int, error) {
	a.rec.mu.Lock()
	a.rec.probes, a.rec.bad = nil, nil
	a.rec.mu.Unlock()
	a.rec.reset()

	r, err := sevenzip.NewReader(bytes.NewReader(a.data), int64(len(a.data)))
	if err != nil {
		h.Die("%v", err)
	}

	l := &concLog{num: map[*probe]int{}}

	by := func(op string) func(*probe) {
		return func(p *probe) {
			self := schedSelf()
			if self == nil {
				return
			}

			l.mu.Lock()
			if op == "create" {
				l.num[p] = len(l.num) + 1
			}

			d := l.num[p]
			l.mu.Unlock()

			l.add(concEvent{Op: op, P: self.n + 1, D: d})
			schedYield()
		}
	}

	create := by("create")
	a.rec.onRead, a.rec.onClose = by("use"), by("gone")
	a.rec.created = func(p *probe) error {
		create(p)

		return nil
	}

	seeds := make([]int64, len(progs))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}

	var steps atomic.Int64

	fs := make([]func(*schedProc) error, len(progs))
	for n := range progs {
		fs[n] = func(p *schedProc) error {
			rng := rand.New(rand.NewSource(seeds[n])) //nolint:gosec

			defer func() { steps.Add(int64(p.steps)) }()

			for _, v := range progs[n] {
				if err := concVisitRun(a, r, l, n+1, v, rng); err != nil {
					return fmt.Errorf("file %d of stream %d: %w", v.I, v.S, err)
				}

				p.phase++
			}

			return nil
		}
	}

	err = schedRun(fs, choose)

	a.rec.mu.Lock()
	defer a.rec.mu.Unlock()

	if err == nil && len(a.rec.bad) > 0 {
		err = errors.New(a.rec.bad[0])
	}

	return l.ev, int(steps.Load()), err
}

func concVisitRun(a *poolArchive, r *sevenzip.Reader, l *concLog, p int, v concVisit, rng *rand.Rand) error {
	l.add(concEvent{Op: "open", P: p})

	rc, err := r.File[a.first[v.S-1]+v.I-1].Open()
	if err != nil {
		return fmt.Errorf("opening: %w", err)
	}

	l.add(concEvent{Op: "opened", P: p})

	from, to := a.off(v.S-1, v.I-1)
	content := a.contents[v.S-1][from*concUnit : to*concUnit]
	size := to - from

	for got := 0; got < min(v.M, size); {
		n := 1 + rng.Intn(min(v.M, size)-got)
		b := make([]byte, n*concUnit)

		if _, err := io.ReadFull(rc, b); err != nil {
			return fmt.Errorf("reading: %w", err)
		}

		if want := content[got*concUnit : (got+n)*concUnit]; !bytes.Equal(b, want) {
			return fmt.Errorf("read %x at %d, not %x", b, got*concUnit, want) //nolint:err113
		}

		got += n

		l.add(concEvent{Op: "got", P: p, N: n})
	}

	if v.M >= size {
		if n, err := rc.Read(make([]byte, 4)); n != 0 || !errors.Is(err, io.EOF) {
			return fmt.Errorf("reading at the end gives %d and %v", n, err) //nolint:err113
		}
	}

	l.add(concEvent{Op: "close", P: p})

	if err := rc.Close(); err != nil {
		return fmt.Errorf("closing: %w", err)
	}

	l.add(concEvent{Op: "closed", P: p})

	return nil
}

func concPolicy(rng *rand.Rand, n, steps int) (policy, string) {
	var (
		c    policy
		name string
	)

	if k := rng.Intn(10); k < 7 {
		at := map[int]bool{}
		for i := 0; i <= rng.Intn(3); i++ {
			at[1+rng.Intn(max(steps, 1))] = true
		}

		c, name = preempting(rng.Perm(n), at), fmt.Sprint("preempting at ", at)
	} else {
		m := []int{2, 6, 25}[k-7]
		c, name = wandering(rand.New(rand.NewSource(rng.Int63())), m), fmt.Sprint("wandering ", m) //nolint:gosec
	}

	if rng.Intn(2) == 0 {
		return firstPhase(c), name + " after the first visits"
	}

	return c, name
}

// concPoolCmd replays programs of ConcurrentPool under schedules and writes
// what happened for ConcurrentTrace.
//
//	concpool TRACES CASES...
func concPoolCmd(c *Ctx) {
	var shard, shards int
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &shards); err != nil {
		h.Die("VERIF_SHARD: %v", err)
	}

	seconds := 30
	if !h.Env.Quick() {
		seconds = 600
	}

	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		fmt.Sscan(s, &seconds)
	}

	var cases []concCase

	for _, a := range c.Args[1:] {
		h.Lines(a, func(b []byte) {
			var cs concCase
			if err := json.Unmarshal(b, &cs); err != nil {
				h.Die("%v", err)
			}

			cases = append(cases, cs)
		})
	}

	out, err := os.Create(c.Arg(0))
	if err != nil {
		h.Die("%v", err)
	}

	w := bufio.NewWriter(out)
	rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(shard))) //nolint:gosec
	archives := map[string]*poolArchive{}
	seen := map[string]bool{}
	end := time.Now().Add(time.Duration(seconds) * time.Second)

	most := 700
	if !h.Env.Quick() {
		most = 6000
	}

	for n := 0; time.Now().Before(end) && !h.Env.Failed(); n++ {
		cs := cases[rng.Intn(len(cases))]

		key := fmt.Sprint(cs.Streams)
		if archives[key] == nil {
			archives[key] = newPoolArchive(poolCfg{cs.Streams, 0}, "copy", concUnit, true)
		}

		var names []string
		for p := range cs.Prog {
			names = append(names, p)
		}

		sort.Strings(names)

		var progs [][]concVisit
		for _, p := range names {
			progs = append(progs, cs.Prog[p])
		}

		steps := 0
		h.Env.Count("cases", 1)

		for k := 0; k < 12 && !h.Env.Failed(); k++ {
			pol, name := preempting(rng.Perm(len(progs)), nil), "one after the other"
			if k > 0 {
				pol, name = concPolicy(rng, len(progs), steps)
			}

			ev, st, err := concPoolRun(archives[key], progs, pol, rng)
			if k == 0 {
				steps = st
			}

			h.Env.Count("schedules", 1)
			h.Env.Count("steps", st)

			if err != nil {
				what := fmt.Sprintf("%v with goroutines that read %v of streams %v, %s", err, progs, cs.Streams, name)
				h.Env.Fail("schedule "+what, what, map[string]any{
					"streams": cs.Streams, "programs": progs, "events": ev, "schedule": name, "seed": c.Seed, "shard": shard, "n": n, "k": k,
				})

				break
			}

			b, _ := json.Marshal(concTrace{Prog: progs, Ev: ev})
			if !seen[string(b)] && len(seen) < most {
				seen[string(b)] = true
				b, _ = json.Marshal(concTrace{shard*1000000 + len(seen), progs, ev})
				w.Write(append(b, '\n'))

				if len(seen) < 3 {
					h.Env.Sample(json.RawMessage(b))
				}
			}
		}
	}

	h.Env.Count("traces", len(seen))

	if err := errors.Join(w.Flush(), out.Close()); err != nil {
		h.Die("%v", err)
	}
}

// A concSpot is an archive that all goroutines use.
type concSpot struct {
	chain    string
	data     []byte
	names    []string
	contents [][]byte
	r        *sevenzip.Reader
}

// open makes a new Reader.
func (s *concSpot) open() *sevenzip.Reader {
	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(s.data), int64(len(s.data)), enc.Password)
	if err != nil {
		h.Die("%s: %v", s.chain, err)
	}

	return r
}

// concSpots are archives with all chains.  They have directories, and their
// files are in two streams.
func concSpots(unit int) []*concSpot {
	var o []*concSpot

	for n, chain := range enc.Chains {
		s := &concSpot{chain: chain}
		a := sz.Archive{}

		for k := 0; k < 2; k++ {
			content := pattern(unit*5+n, 10*n+k)
			if chain == "ppmd" {
				content = enc.PPMDContent
			}

			f := enc.Chain(chain, content)
			cuts := []int{0, len(content) / 5, len(content) / 2, len(content)}

			if k == 1 {
				cuts = []int{0, len(content)}
			}

			for i := range cuts[1:] {
				c := content[cuts[i]:cuts[i+1]]
				name := fmt.Sprintf("d%d/e%d/f%d", k, i%2, i)
				f.Subs = append(f.Subs, sz.Sub{Size: uint64(len(c)), CRC: sz.CRC(c)})
				a.Files = append(a.Files, sz.File{Name: name})
				s.names = append(s.names, name)
				s.contents = append(s.contents, c)
			}

			a.Folders = append(a.Folders, f)
		}

		s.data = a.Bytes()
		o = append(o, s)
	}

	return o
}

// concKeys are archives of their own keys each.
func concKeys(n int) []*concSpot {
	var o []*concSpot

	for i := 0; i < n; i++ {
		s := &concSpot{chain: fmt.Sprint("key ", i), names: []string{"a"}}
		c := pattern(20+i, i)
		props, packed := enc.AES(c, enc.Password, fmt.Appendf(nil, "salt%d", i/2), []byte("0123456789abcdef"), 2+i%2)
		f := sz.Single(sz.AES, props, packed, len(c))
		f.Subs = []sz.Sub{{Size: uint64(len(c)), CRC: sz.CRC(c)}}
		s.data = (&sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "a"}}}).Bytes()
		s.contents = [][]byte{c}
		o = append(o, s)
	}

	return o
}

var concNext atomic.Uint32

// concTask does something at random with one of the archives.
func concTask(spots, keys []*concSpot, rng *rand.Rand) error {
	s := spots[rng.Intn(len(spots))]

	switch rng.Intn(12) {
	case 0:
		// A listing of what may be a Reader nobody asked for one.
		var want []string

		seen := map[string]bool{}

		for _, n := range s.names {
			if n = n[:2]; !seen[n] {
				seen[n] = true
				want = append(want, n)
			}
		}

		l, err := fs.ReadDir(s.r, ".")
		if err != nil || len(l) != len(want) {
			return fmt.Errorf("%s: listing: %v %w", s.chain, l, err)
		}

		for i := range l {
			if l[i].Name() != want[i] || !l[i].IsDir() {
				return fmt.Errorf("%s: listing: %v", s.chain, l) //nolint:err113
			}
		}

		return nil
	case 1:
		n := rng.Intn(len(s.names))

		b, err := fs.ReadFile(s.r, s.names[n])
		if err != nil || !bytes.Equal(b, s.contents[n]) {
			return fmt.Errorf("%s: ReadFile of %s: %x %w", s.chain, s.names[n], b, err)
		}

		return nil
	case 2:
		// A method of its own.
		id := binary.BigEndian.AppendUint32([]byte{0x7f, 0x6f}, concNext.Add(1))
		x := byte(rng.Intn(255) + 1)

		sevenzip.RegisterDecompressor(id, func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
			return &xorReader{in[0], x}, nil
		})

		c := pattern(30, int(x))
		p := bytes.Clone(c)

		for i := range p {
			p[i] ^= x
		}

		f := sz.Single(id, nil, p, len(p))
		f.Subs = []sz.Sub{{Size: uint64(len(p)), CRC: sz.CRC(c)}}
		b := (&sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "a"}}}).Bytes()
		s = &concSpot{"own", b, []string{"a"}, [][]byte{c}, nil}
		s.r = s.open()
	case 3, 4, 5:
		s = keys[rng.Intn(len(keys))]

		if rng.Intn(2) == 0 {
			s = &concSpot{s.chain, s.data, s.names, s.contents, s.open()}
		}

		if rng.Intn(4) == 0 {
			// What a wrong password leads to is of no concern but to others.
			r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(s.data), int64(len(s.data)), fmt.Sprint(rng.Intn(20)))
			if err == nil && len(r.File) == 1 {
				if rc, err := r.File[0].Open(); err == nil {
					b, _ := io.ReadAll(rc)
					_ = rc.Close()

					if bytes.Equal(b, s.contents[0]) {
						return errors.New("a wrong password decrypts") //nolint:err113
					}
				}
			}

			return nil
		}
	case 6:
		s = &concSpot{s.chain, s.data, s.names, s.contents, s.open()}
	}

	n := rng.Intn(len(s.names))
	content := s.contents[n]

	rc, err := s.r.File[n].Open()
	if err != nil {
		return fmt.Errorf("%s: opening: %w", s.chain, err)
	}

	if rng.Intn(4) == 0 {
		content = content[:rng.Intn(len(content)+1)]
	}

	b := make([]byte, 0, len(content))

	for len(b) < len(content) {
		k := min(1+rng.Intn(len(content)), len(content)-len(b))

		m, err := rc.Read(b[len(b) : len(b)+k])
		b = b[:len(b)+m]

		if err != nil && !(errors.Is(err, io.EOF) && len(b) == len(s.contents[n])) {
			return fmt.Errorf("%s: reading %s: %w after %d", s.chain, s.names[n], err, len(b))
		}
	}

	if !bytes.Equal(b, content) {
		return fmt.Errorf("%s: %s of %s", s.chain, s.names[n], differ(b, content)) //nolint:err113
	}

	if rng.Intn(20) == 0 {
		return nil // abandoned
	}

	// Closing a handle of a truncated stream may report that.
	if err := rc.Close(); err != nil && len(content) == len(s.contents[n]) {
		return fmt.Errorf("%s: closing: %w", s.chain, err)
	}

	return nil
}

type xorReader struct {
	io.ReadCloser
	x byte
}

func (r *xorReader) Read(p []byte) (int, error) {
	n, err := r.ReadCloser.Read(p)
	for i := range p[:n] {
		p[i] ^= r.x
	}

	return n, err //nolint:wrapcheck
}

// concSet picks some of the archives, with new Readers.
func concSet(spots []*concSpot, rng *rand.Rand) []*concSpot {
	var o []*concSpot

	for _, k := range rng.Perm(len(spots))[:1+rng.Intn(3)] {
		s := *spots[k]
		s.r = s.open()
		o = append(o, &s)
	}

	return o
}

// concTasksCmd runs tasks under schedules.
func concTasksCmd(c *Ctx) {
	var shard, shards int
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &shards); err != nil {
		h.Die("VERIF_SHARD: %v", err)
	}

	seconds := 25
	if !h.Env.Quick() {
		seconds = 600
	}

	rng := rand.New(rand.NewSource(c.Seed*1000033 + int64(shard))) //nolint:gosec
	all, keys := concSpots(12), concKeys(16)
	end := time.Now().Add(time.Duration(seconds) * time.Second)
	steps := 300

	for n := 0; time.Now().Before(end) && !h.Env.Failed(); n++ {
		spots := concSet(all, rng)
		own := concSet(keys, rng)
		procs := 2 + rng.Intn(2)
		fs := make([]func(*schedProc) error, procs)

		var total atomic.Int64

		for i := range fs {
			seed := rng.Int63()
			fs[i] = func(p *schedProc) error {
				rng := rand.New(rand.NewSource(seed)) //nolint:gosec

				defer func() { total.Add(int64(p.steps)) }()

				for k := 0; k < 3; k++ {
					if err := concTask(spots, own, rng); err != nil {
						return err
					}

					p.phase++
				}

				return nil
			}
		}

		pol, name := concPolicy(rng, procs, steps)
		err := schedRun(fs, pol)
		steps = (steps*7 + int(total.Load())) / 8

		h.Env.Count("walks", 1)
		h.Env.Count("steps", int(total.Load()))

		if err != nil {
			h.Env.Fail("tasks "+err.Error(), fmt.Sprintf("%v, %s", err, name), map[string]any{
				"seed": c.Seed, "shard": shard, "n": n, "schedule": name,
			})
		}
	}
}

// concFreeCmd runs tasks without any schedule, to be watched by the race
// detector.
func concFreeCmd(c *Ctx) {
	seconds := 40
	if !h.Env.Quick() {
		seconds = 900
	}

	rng := rand.New(rand.NewSource(c.Seed * 1000037)) //nolint:gosec
	all, keys := concSpots(60), concKeys(24)
	end := time.Now().Add(time.Duration(seconds) * time.Second)

	for n := 0; time.Now().Before(end) && !h.Env.Failed(); n++ {
		h.Progress(map[string]any{"seed": c.Seed, "round": n})

		spots, own := concSet(all, rng), concSet(keys, rng)
		procs := 2 + rng.Intn(9)
		start := make(chan struct{})

		var wg sync.WaitGroup

		for i := 0; i < procs; i++ {
			seed := rng.Int63()

			wg.Add(1)

			go func() {
				defer wg.Done()

				rng := rand.New(rand.NewSource(seed)) //nolint:gosec

				<-start

				for k := 0; k < 6; k++ {
					var err error
					if e := h.Guard(func() { err = concTask(spots, own, rng) }); e != nil {
						err = e
					}

					if err != nil {
						h.Env.Fail("free "+err.Error(), err.Error(), map[string]any{"seed": c.Seed, "round": n})
					}
				}
			}()
		}

		if err := h.Timed(func() {
			close(start)
			wg.Wait()
		}); err != nil {
			h.Env.Fail("free hang", err.Error(), map[string]any{"seed": c.Seed, "round": n})

			break
		}

		h.Env.Count("walks", procs)
	}
}
