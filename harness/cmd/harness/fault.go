package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["fault"] = faultCmd }

var errStorage = errors.New("the storage failed")

// flaky is storage that fails on demand.
type flaky struct {
	mu    sync.Mutex
	b     []byte
	rng   *rand.Rand
	armed bool
	delay int   // reads that still succeed
	times int   // reads that fail, or -1
	err   error // how
	part  int   // how much of the data is delivered: none, some or nearly all
	hits  int
	reads int
}

func (f *flaky) ReadAt(p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.reads++

	if off >= int64(len(f.b)) {
		return 0, io.EOF
	}

	n := copy(p, f.b[off:])

	if f.armed && n > 0 {
		if f.delay > 0 {
			f.delay--
		} else if f.times != 0 {
			f.times--
			f.hits++

			switch f.part {
			case 0:
				n = 0
			case 1:
				n = f.rng.Intn(n)
			case 2:
				n--
			}

			// What is behind is undefined.
			for i := n; i < len(p); i++ {
				p[i] = byte(f.rng.Intn(256))
			}

			return n, f.err
		}
	}

	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

func (f *flaky) arm() {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.armed = true
	f.delay = []int{0, 0, 1, 2, f.rng.Intn(12)}[f.rng.Intn(5)]
	f.times = []int{-1, 1, 1, 2}[f.rng.Intn(4)]
	f.part = f.rng.Intn(3)

	if f.err == nil {
		// One kind for each storage, as decoders report failures late.
		f.err = []error{
			errStorage, fmt.Errorf("disk: %w", errStorage), errStorage, io.ErrUnexpectedEOF,
		}[f.rng.Intn(4)]
	}
}

func (f *flaky) mend() {
	f.mu.Lock()
	defer f.mu.Unlock()

	f.armed = false
}

// hit tells whether there was a failure since last asked.
func (f *flaky) hit() bool {
	f.mu.Lock()
	defer f.mu.Unlock()

	n := f.hits
	f.hits = 0

	return n > 0
}

type faultSys struct {
	*truncateSys
	f *flaky
	// ahead is set if decoders read in the background.
	ahead bool
	rec   *recorder
	last  error
}

// wraps tells whether err is the failure of the storage.  A storage that
// reports an unexpected end of data looks like a short archive, which has
// errors of its own.
func (s *faultSys) wraps(err error) bool {
	return errors.Is(err, errStorage) || !errors.Is(s.f.err, errStorage)
}

//nolint:cyclop,funlen
func (s *faultSys) Do(raw json.RawMessage) (map[string]any, error) {
	var a struct {
		Do      string
		H, F, N int
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	s.rec.mu.Lock()
	bad := s.rec.bad
	s.rec.mu.Unlock()

	if len(bad) > 0 {
		return nil, errors.New(bad[0])
	}

	var err error

	switch a.Do {
	case "break":
		s.f.hit()
		s.f.arm()

		return map[string]any{"ok": true}, nil
	case "mend":
		s.f.mend()
		s.f.hit()

		return map[string]any{"all": s.ahead}, nil
	case "archive":
		s.r, err = sevenzip.NewReaderWithPassword(s.f, int64(len(s.f.b)), enc.Password)
	case "open":
		var r io.ReadCloser

		r, err = s.r.File[a.F-1].Open()
		if err == nil {
			s.hs[a.H] = &truncateHandle{r: r, f: a.F - 1}
		}
	case "read":
		_, err = s.upto(s.hs[a.H], a.N*s.unit)
	case "again":
		var n int

		for i := 0; i < 2; i++ {
			n, err = s.hs[a.H].r.Read(make([]byte, 1+s.rng.Intn(2*s.unit)))
			if n != 0 || err == nil || errors.Is(err, io.EOF) {
				return nil, fmt.Errorf("%d bytes and error %w from a failed handle", n, err)
			}
		}

		if s.f.hit() && !s.ahead {
			return nil, errors.New("a failed handle goes on reading")
		}

		return map[string]any{"hit": false, "ok": false}, nil
	case "close":
		err = s.hs[a.H].r.Close()
		delete(s.hs, a.H)

		return map[string]any{"hit": false, "ok": err == nil}, nil
	}

	if err != nil {
		if err.Error()[0] == '!' {
			return nil, err
		}

		var re *sevenzip.ReadError

		if a.Do != "archive" && !errors.As(err, &re) || !s.wraps(err) {
			return nil, fmt.Errorf("the error does not tell what happened (%w): %w", s.f.err, err)
		}
	}

	hit := s.f.hit()
	if s.ahead && s.f.armed && a.Do != "archive" {
		hit = true
	}

	return map[string]any{"hit": hit, "ok": err == nil}, nil
}

func (s *faultSys) End() error {
	s.f.mend()
	_ = s.truncateSys.End()
	s.rec.drop()

	s.rec.mu.Lock()
	defer s.rec.mu.Unlock()

	if len(s.rec.bad) > 0 {
		return errors.New(s.rec.bad[0])
	}

	return nil
}

// upto is as in truncateSys, but tells files that end early.
func (s *faultSys) upto(hd *truncateHandle, n int) (int, error) {
	m, err := s.truncateSys.upto(hd, n)
	if err != nil && errors.Is(err, io.EOF) && errors.Is(s.f.err, errStorage) {
		err = fmt.Errorf("!the file ends early: %w", err)
	}

	return m, err
}

// faultArchive has the model's files in one stream below a probe.
func faultArchive(cfg *truncateCfg, chain string, unit int, rec *recorder, encoded string) (*truncateArchive, int) {
	contents, all := truncateContents(cfg, chain, unit)
	contents = contents[1:]

	f := enc.Chain(chain, all)
	if rec != nil {
		f = enc.WithTop(f, probeID, rec.props(0))
	}

	w := sz.Archive{}

	for i, c := range contents {
		w.Files = append(w.Files, sz.File{Name: fmt.Sprint("file", i)})
		f.Subs = append(f.Subs, sz.Sub{Size: uint64(len(c)), CRC: sz.CRC(c)})
	}

	w.Folders = []sz.Folder{f}

	if encoded != "" {
		w.EncodeHeader = func(b []byte) sz.Folder {
			f := enc.Chain(encoded, b)
			f.CRC = sz.CRC(b)

			return f
		}
	}

	total := 0
	for _, n := range cfg.Sizes {
		total += n
	}

	return &truncateArchive{data: w.Bytes(), contents: contents}, len(all) / total
}

func faultCmd(c *Ctx) {
	for _, path := range c.Args {
		g := h.Load(path)
		ix := g.Index()

		var cfg truncateCfg
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		h.Parallel(len(enc.Chains), func(n int) {
			rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(n))) //nolint:gosec
			units := []int{60, 9000, 50000}
			walks := 60

			if !h.Env.Quick() {
				units = append(units, 1, 17, 4096, 200000)
				walks = 1500
			}

			for _, unit := range units {
				faultChain(&cfg, g, ix, enc.Chains[n], unit, walks, rng)
			}
		})
	}

	faultOpening(c)
}

func faultChain(cfg *truncateCfg, g *h.Graph, ix *h.AdaptiveIndex, chain string, unit, walks int, rng *rand.Rand) {
	encoded := []string{"", "", "copy", "lzma2", "aes+deflate"}[rng.Intn(5)]
	rec := newRecorder()
	a, unit := faultArchive(cfg, chain, unit, rec, encoded)

	rec.drop()

	w := &h.Adaptive{
		G: g, Rng: rng, Name: fmt.Sprintf("%s, unit %d, header %q", chain, unit, encoded),
		Ctx: map[string]any{"chain": chain, "unit": unit, "header": encoded},
		New: func(json.RawMessage) h.Reactor {
			r := &recorder{id: rec.id, read: map[int]bool{}, strict: true}
			recorders.Store(r.id, r)

			f := &flaky{b: a.data, rng: rng}

			return &faultSys{
				truncateSys: &truncateSys{a: a, hs: map[int]*truncateHandle{}, rng: rng, unit: unit},
				f:           f, rec: r, ahead: strings.Contains(chain, "zstd"),
			}
		},
	}

	w.Run(ix, walks, 60)
	w.Done()
}

// faultOpening fails each of the reads that opening an archive takes.
func faultOpening(c *Ctx) {
	rounds := 6
	if !h.Env.Quick() {
		rounds = 200
	}

	h.Parallel(rounds*4, func(n int) {
		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(n))) //nolint:gosec
		kind := &integrityCase{}
		kind.A.Enc = []string{"plain", "copy", "packed", "packed"}[n%4]
		kind.A.Digest = rng.Intn(2) == 0
		kind.A.Gap = rng.Intn(2) == 0
		ia := integrityBuild(kind, rng)
		prefix := make([]byte, []int{0, 0, 1, 5000, 9000, 40000}[rng.Intn(6)])
		rng.Read(prefix)

		// What looks like an archive makes for more places to fail.
		for i, m := 0, rng.Intn(4); i < m && len(prefix) > 100; i++ {
			copy(prefix[1+rng.Intn(len(prefix)-40):], signature)
		}

		data := append(prefix, ia.data...)

		for part := 0; part < 3; part++ {
			for _, times := range []int{-1, 1} {
				for _, e := range []error{errStorage, io.ErrUnexpectedEOF} {
					for k := 0; ; k++ {
						f := &flaky{b: data, rng: rng, armed: true, delay: k, times: times, err: e, part: part}

						var err error

						if pn := h.Guard(func() { err = faultOpen(f, ia) }); pn != nil {
							err = pn
						}

						h.Env.Count("cases", 1)

						if err != nil {
							what := fmt.Sprintf("read %d of opening fails with %q (%d times, part %d): %v (%s)", k, e, times, part, err, ia.what)
							h.Env.Fail(what, what, map[string]any{"archive": data, "read": k, "times": times, "part": part})

							return
						}

						if !f.hit() {
							break
						}
					}
				}
			}
		}
	})
}

func faultOpen(f *flaky, ia *integrityArchive) error {
	r, err := sevenzip.NewReaderWithPassword(f, int64(len(f.b)), enc.Password)

	f.mend()

	switch {
	case err == nil:
		if l := listing(r); l != ia.list {
			return fmt.Errorf("the listing is\n%sinstead of\n%s", l, ia.list)
		}

		return ia.read(r)
	case f.hits == 0:
		return fmt.Errorf("opening fails without a failure: %w", err)
	case errors.Is(f.err, errStorage) && !errors.Is(err, errStorage):
		return fmt.Errorf("the error does not tell what happened: %w", err)
	}

	// The storage works again.
	r, err = sevenzip.NewReaderWithPassword(bytes.NewReader(f.b), int64(len(f.b)), enc.Password)
	if err != nil {
		return fmt.Errorf("opening again: %w", err)
	}

	return ia.read(r)
}
