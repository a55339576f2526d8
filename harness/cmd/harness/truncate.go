package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"slices"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["truncate"] = truncateCmd }

type truncateCfg struct {
	Sizes []int
	Other int
}

// truncateArchive is an archive whose second stream ends early.
type truncateArchive struct {
	data     []byte
	shrinks  int      // where the storage ends once the archive is open, or -1
	contents [][]byte // of the other file and those of the stream
	lo, hi   int      // how many bytes can be decoded
	lenient  bool     // the end may be taken for one of the file
	soft     int      // how many of the last bytes a filter passes on as they are
	what     string
}

// shrink is storage that ends early from some time on.
type shrink struct {
	b    []byte
	end  int
	kind int
}

func (s *shrink) ReadAt(p []byte, off int64) (int, error) {
	b := s.b
	if s.end >= 0 {
		b = b[:s.end]
	}

	if off >= int64(len(b)) {
		return 0, io.EOF
	}

	n := copy(p, b[off:])
	if n < len(p) || s.kind == 1 && int(off)+n == len(b) {
		if s.kind == 2 {
			return n, io.ErrUnexpectedEOF
		}

		return n, io.EOF
	}

	return n, nil
}

// truncateContents are the contents of the files for a chain and the stream of
// the second to the last.
func truncateContents(cfg *truncateCfg, chain string, unit int) (contents [][]byte, all []byte) {
	total := 0
	for _, n := range cfg.Sizes {
		total += n
	}

	if chain == "ppmd" {
		all = enc.PPMDContent
		unit = len(all) / total
		all = all[:len(all):len(all)]
	} else {
		all = pattern(total*unit, 7)
	}

	contents = append(contents, pattern(cfg.Other*unit, 9))
	at := 0

	for i, n := range cfg.Sizes {
		end := at + n*unit
		if i == len(cfg.Sizes)-1 {
			end = len(all)
		}

		contents = append(contents, all[at:end])
		at = end
	}

	return contents, all
}

// truncateBuild writes the archive.  cut is the length of what is left.
func truncateBuild(cfg *truncateCfg, chain string, f sz.Folder, contents [][]byte, all []byte, kind string, cut int) *truncateArchive {
	a := &truncateArchive{contents: contents, shrinks: -1}

	o := enc.Chain("copy", contents[0])
	o.Subs = []sz.Sub{{Size: uint64(len(contents[0])), CRC: sz.CRC(contents[0])}}

	if kind == "short" {
		// The stream is whole, but decodes to less than what is declared.
		if chain == "aes" || chain == "aes+copy" {
			cut = cut / 16 * 16 // it is padded otherwise
		}

		f = enc.Chain(chain, all[:cut])
		for i := range f.Coders {
			if f.Coders[i].Size == uint64(cut) || i == len(f.Coders)-1 { //nolint:gosec
				f.Coders[i].Size = uint64(len(all))
			}
		}

		a.lo, a.hi = cut, cut
		a.lenient = strings.Contains(chain, "aes")

		if slices.Contains(strings.Split(chain, "+"), "lzma") {
			// A decoder that is told to go on without an end marker may
			// decode a little from the last bytes, and loses some.
			a.lo, _ = enc.Decodable(chain, &f, f.Streams[0])
			a.lo, a.hi = min(a.lo, cut), len(all)
		}

		if chain == "bcj2" || chain == "bcj2lz" {
			a.lo, a.hi = 0, len(all)
		}
	}

	if kind == "less" {
		// The archive says that one of the packed streams ends there.
		packed := slices.Concat(f.Streams...)
		a.lo, a.hi = enc.Decodable(chain, &f, packed[:cut])
		a.lenient = strings.Contains(chain, "aes")

		if truncateBranches(chain) {
			a.soft = 4
		}

		f.Streams = slices.Clone(f.Streams)
		at := 0

		for i, s := range f.Streams {
			if cut < at+len(s) {
				f.Streams[i] = s[:cut-at]

				break
			}

			at += len(s)
		}
	}

	f.Subs = nil
	w := sz.Archive{Folders: []sz.Folder{o, f}, Files: []sz.File{{Name: "other"}}}

	for i := range cfg.Sizes {
		c := contents[i+1]
		name := fmt.Sprint("file", i+1)

		if len(c) == 0 {
			w.Files = append(w.Files, sz.File{Name: name, Empty: true, EmptyFile: true})

			continue
		}

		w.Files = append(w.Files, sz.File{Name: name})
		w.Folders[1].Subs = append(w.Folders[1].Subs, sz.Sub{Size: uint64(len(c)), CRC: sz.CRC(c)})
	}

	header, streams := w.Header()

	switch kind {
	case "cut":
		streams = streams[:len(contents[0])+cut]
	case "shrink":
		a.shrinks = 32 + len(contents[0]) + cut
	}

	if kind == "cut" || kind == "shrink" {
		var packed []byte
		for _, s := range f.Streams {
			packed = append(packed, s...)
		}

		a.lo, a.hi = enc.Decodable(chain, &f, packed[:cut])
	}

	a.data = sz.Frame(streams, header)
	a.what = fmt.Sprintf("%s %s at %d of %d, %d to %d of %d decodable", chain, kind, cut, len(streams), a.lo, a.hi, len(all))

	return a
}

// same tells whether b are the bytes of the file at pos.
func (a *truncateArchive) same(file, pos int, b []byte) bool {
	c := a.contents[file][pos:]
	if bytes.Equal(b, c[:len(b)]) {
		return true
	}

	for _, x := range a.contents[1:max(file, 1)] {
		pos += len(x)
	}

	// before what is soft
	n := max(0, min(len(b), a.hi-a.soft-pos))

	return file > 0 && pos+len(b) <= a.hi && a.soft > 0 && bytes.Equal(b[:n], c[:n])
}

type truncateHandle struct {
	r      io.ReadCloser
	f, pos int
	failed bool
}

type truncateSys struct {
	a    *truncateArchive
	r    *sevenzip.Reader
	hs   map[int]*truncateHandle
	rng  *rand.Rand
	unit int
}

func (a *truncateArchive) open(rng *rand.Rand) (*sevenzip.Reader, error) {
	s := &shrink{a.data, -1, rng.Intn(3)}

	r, err := sevenzip.NewReaderWithPassword(s, int64(len(a.data)), enc.Password)
	if err != nil {
		return nil, fmt.Errorf("opening the archive: %w", err)
	}

	s.end = a.shrinks

	return r, nil
}

// upto reads n bytes, or until there is an error.
func (s *truncateSys) upto(hd *truncateHandle, n int) (int, error) {
	c := s.a.contents[hd.f]
	got, idle := 0, 0

	for got < n {
		b := make([]byte, 1+s.rng.Intn(n-got))
		if s.rng.Intn(2) == 0 {
			b = make([]byte, n-got)
		}

		m, err := hd.r.Read(b)
		if m < 0 || m > len(b) || hd.pos+m > len(c) {
			return got, fmt.Errorf("!%d bytes read into %d at %d of %d", m, len(b), hd.pos, len(c))
		}

		if !s.a.same(hd.f, hd.pos, b[:m]) {
			return got, fmt.Errorf("!wrong bytes between %d and %d of file %d", hd.pos, hd.pos+m, hd.f)
		}

		hd.pos += m
		got += m

		if err != nil {
			if got == n && (!errors.Is(err, io.EOF) || hd.pos == len(c)) {
				return got, nil
			}

			return got, err //nolint:wrapcheck
		}

		if m == 0 {
			if idle++; idle > 100 {
				return got, errors.New("!no progress")
			}
		} else {
			idle = 0
		}
	}

	return got, nil
}

//nolint:cyclop,funlen,gocognit,gocyclo
func (s *truncateSys) Do(raw json.RawMessage) error {
	var a struct {
		Op, Reply string
		H, F, N   int
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	fail := func(format string, v ...any) error {
		return fmt.Errorf("%s: "+format, append([]any{raw}, v...)...)
	}

	if a.Op == "open" {
		r, err := s.r.File[a.F].Open()

		switch {
		case a.Reply == "ok" && err != nil:
			return fail("%w", err)
		case a.Reply != "ok" && err == nil:
			// It may as well show when it is read.
			hd := &truncateHandle{r: r, f: a.F}

			n, err := s.upto(hd, len(s.a.contents[a.F]))
			if err != nil && (err.Error()[0] == '!' || errors.Is(err, io.EOF) && !s.a.lenient) {
				return fail("%d bytes read, error %w", n, err)
			}

			if a.Reply == "fails" && n > 0 || err == nil && n > s.a.hi {
				return fail("%d bytes read that are not there, error %v", n, err)
			}

			_ = r.Close()
		case err == nil:
			s.hs[a.H] = &truncateHandle{r: r, f: a.F}
		}

		return nil
	}

	hd := s.hs[a.H]
	n := a.N * s.unit

	switch a.Op {
	case "close":
		delete(s.hs, a.H)

		// Decoders may complain about what they read ahead.
		if err := hd.r.Close(); err != nil && hd.f == 0 {
			return fail("%w", err)
		}

		return nil
	case "again":
		if !hd.failed {
			return nil
		}

		n, err := hd.r.Read(make([]byte, 1+s.rng.Intn(50)))
		if n != 0 || err == nil || errors.Is(err, io.EOF) && !s.a.lenient {
			return fail("%d bytes and error %v from a failed handle", n, err)
		}

		return nil
	case "all":
		n = len(s.a.contents[hd.f]) - hd.pos
	}

	_, err := s.upto(hd, n)

	switch {
	case err != nil && err.Error()[0] == '!':
		return fail("%w", err)
	case a.Reply == "ok" && err != nil:
		return fail("reading %d bytes: %w", n, err)
	case a.Reply == "fails" && err == nil:
		return fail("%d bytes read that are not there", n)
	case err != nil && errors.Is(err, io.EOF) && !s.a.lenient:
		return fail("%w at %d of file %d of %d bytes", err, hd.pos, hd.f, len(s.a.contents[hd.f]))
	}

	hd.failed = err != nil

	return nil
}

func (s *truncateSys) End() error {
	for _, hd := range s.hs {
		_ = hd.r.Close()
	}

	return nil
}

//nolint:cyclop,funlen,gocognit
func truncateCmd(c *Ctx) {
	for _, path := range c.Args {
		g := h.Load(path)

		var cfg truncateCfg
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		inits := map[[2]int]int{}

		for _, i := range g.Init {
			var s []json.RawMessage
			if err := json.Unmarshal(g.States[i], &s); err != nil {
				h.Die("%v", err)
			}

			var c struct{ Lo, Hi int }
			if err := json.Unmarshal(s[0], &c); err != nil {
				h.Die("%v", err)
			}

			inits[[2]int{c.Lo, c.Hi}] = i
		}

		h.Parallel(len(enc.Chains)*4, func(n int) {
			chain, kind := enc.Chains[n/4], []string{"cut", "shrink", "short", "less"}[n%4]
			if chain == "ppmd" && kind == "short" {
				return
			}

			rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(n))) //nolint:gosec
			units := []int{60, 7000}

			if !h.Env.Quick() {
				units = append(units, 1, 17, 300, 40000)
			}

			for _, unit := range units {
				truncateChain(&cfg, g, inits, chain, kind, unit, rng)
			}
		})
	}
}

func truncateBranches(chain string) bool {
	return slices.ContainsFunc(strings.Split(chain, "+"), func(name string) bool {
		return slices.Contains([]string{"bcj", "arm", "arm64", "ppc", "sparc"}, name)
	})
}

func truncateChain(cfg *truncateCfg, g *h.Graph, inits map[[2]int]int, chain, kind string, unit int, rng *rand.Rand) {
	contents, all := truncateContents(cfg, chain, unit)
	total := 0

	for _, n := range cfg.Sizes {
		total += n
	}

	unit = len(all) / total
	f := enc.Chain(chain, all)
	size := len(all)

	if kind != "short" {
		size = 0
		for _, s := range f.Streams {
			size += len(s)
		}
	}

	walks := 2
	if !h.Env.Quick() {
		walks = 20
	}

	step := 1

	for cut := 0; cut < size && !h.Env.Failed(); cut += step {
		// Each place, or some if there are many.
		if size > 1000 {
			step = 1 + rng.Intn(size/20)
		} else if h.Env.Quick() && strings.Contains(chain, "bzip2") && kind == "short" {
			step = 1 + rng.Intn(30) // each takes a process
		}

		a := truncateBuild(cfg, chain, f, contents, all, kind, cut)
		lo := min(a.lo/unit, total)
		hi := min((a.hi+unit-1)/unit, total)

		if a.hi < len(all) { // units that are not there whole are not there
			hi = a.hi / unit
		}

		if lo == total {
			continue // nothing that matters is missing
		}

		init, ok := inits[[2]int{lo, hi}]
		if !ok {
			h.Die("no state for %d to %d of %d", lo, hi, total)
		}

		w := &h.Walker{
			G: g, Rng: rng, Name: a.what, Ctx: map[string]any{"chain": chain, "kind": kind, "cut": cut, "unit": unit},
			New: func(json.RawMessage) h.System {
				r, err := a.open(rng)
				if err != nil {
					h.Env.Fail(a.what, a.what+": "+err.Error(), nil)

					return &truncateSys{}
				}

				return &truncateSys{a, r, map[int]*truncateHandle{}, rng, unit}
			},
		}

		w.RandomFrom(init, walks, 40)
		w.Done()
		h.Env.Count("cuts", 1)
	}
}
