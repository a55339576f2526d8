package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"sort"
	"strings"

	"bytes"

	"github.com/bodgit/sevenzip"
	"verif/h"
	"verif/sz"
)

func init() { commands["dircursor"] = dirCursorCmd }

type dirEntryWant struct {
	name string
	dir  bool
	size int64
}

type dirArchive struct {
	data  []byte
	dirs  []string
	wants [][]dirEntryWant
	unit  int
}

// newDirArchive writes directories with the given numbers of entries times
// unit.  In one of three variants the largest is the root, and the others are
// below its first entry.
func newDirArchive(sizes []int, variant, unit int) *dirArchive {
	a := &dirArchive{unit: unit}

	root := -1

	if variant%3 == 2 {
		for d, n := range sizes {
			if n > 0 && (root < 0 || n > sizes[root]) {
				root = d
			}
		}
	}

	elem := func(i int) string {
		e := fmt.Sprintf("e%05d", (i*7+variant)%99991)
		if i%5 == 3 {
			e += ".x"
		}

		return e
	}

	var w sz.Archive

	f := sz.Single(sz.Copy, nil, pattern(1000, 1), 1000)

	type ent struct {
		sz.File
		size int
	}

	var ents []ent

	for d, n := range sizes {
		name := fmt.Sprintf("dir%d", d)
		if variant%3 == 1 {
			name = fmt.Sprintf("deep/er/x%d", d)
		}

		if root >= 0 {
			name = fmt.Sprintf("%s/%s%d", elem(0), strings.Repeat("y/", d), d)
		}

		prefix := name + "/"

		if root == d {
			name, prefix = ".", ""
		}

		var want []dirEntryWant

		n *= unit

		if root != d && (n == 0 || variant%2 == 0) {
			ents = append(ents, ent{sz.File{Name: name, Empty: true}, 0})
		}

		for i := 0; i < n; i++ {
			e := elem(i)
			full := prefix + e

			kind := (i + variant) % 4
			if root == d && i == 0 {
				kind = 2
			}

			switch kind {
			case 0: // a file
				ents = append(ents, ent{sz.File{Name: full}, i + 1})
				want = append(want, dirEntryWant{e, false, int64(i + 1)})
			case 1: // an explicit directory
				ents = append(ents, ent{sz.File{Name: full, Empty: true}, 0})
				want = append(want, dirEntryWant{e, true, 0})
			case 2: // a directory that only its content tells of
				ents = append(ents, ent{sz.File{Name: full + "/inner/most"}, 1})
				want = append(want, dirEntryWant{e, true, 0})
			default: // an empty file
				ents = append(ents, ent{sz.File{Name: full, Empty: true, EmptyFile: true}, 0})
				want = append(want, dirEntryWant{e, false, 0})
			}
		}

		sort.Slice(want, func(i, j int) bool { return want[i].name < want[j].name })
		a.dirs = append(a.dirs, name)
		a.wants = append(a.wants, want)
	}

	rng := rand.New(rand.NewSource(int64(variant))) //nolint:gosec
	rng.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })

	used := 0

	for _, e := range ents {
		w.Files = append(w.Files, e.File)

		if !e.Empty {
			f.Subs = append(f.Subs, sz.Sub{Size: uint64(e.size)})
			used += e.size
		}
	}

	if len(f.Subs) > 0 {
		f.Coders[0].Size = uint64(used)
		f.Streams[0] = pattern(used, 1)
		w.Folders = append(w.Folders, f)
	}

	a.data = w.Bytes()

	return a
}

type dirSys struct {
	a  *dirArchive
	r  *sevenzip.Reader
	hs map[int]fs.ReadDirFile
}

func (s *dirSys) Do(raw json.RawMessage) error {
	var a struct {
		Op            string
		H, D, N, From int
		K             int
		Eof           bool //nolint:revive
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	name := s.a.dirs[a.D-1]

	switch a.Op {
	case "open":
		f, err := s.r.Open(name)
		if err != nil {
			return fmt.Errorf("%s: open %s: %w", raw, name, err)
		}

		rd, ok := f.(fs.ReadDirFile)
		if !ok {
			return fmt.Errorf("%s: %s is not a directory", raw, name)
		}

		s.hs[a.H] = rd
	case "readdir":
		a.K *= s.a.unit
		a.From *= s.a.unit

		if a.N > 0 {
			a.N *= s.a.unit
		}

		list, err := s.hs[a.H].ReadDir(a.N)
		if a.Eof {
			if !errors.Is(err, io.EOF) || len(list) != 0 {
				return fmt.Errorf("%s: %d entries and error %v instead of io.EOF", raw, len(list), err) //nolint:errorlint
			}

			return nil
		}

		if err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}

		if len(list) != a.K {
			return fmt.Errorf("%s: %d entries instead of %d", raw, len(list), a.K)
		}

		for i, e := range list {
			if err := s.entry(e, s.a.wants[a.D-1][a.From+i]); err != nil {
				return fmt.Errorf("%s: entry %d: %w", raw, a.From+i, err)
			}

			// The slice is the caller's.
			list[i] = nil
		}
	case "stat":
		fi, err := s.hs[a.H].Stat()
		if err != nil || !fi.IsDir() {
			return fmt.Errorf("%s: Stat: %v", raw, err) //nolint:errorlint
		}
	case "read":
		n, err := s.hs[a.H].Read(make([]byte, 8))
		if n != 0 || err == nil || errors.Is(err, io.EOF) {
			return fmt.Errorf("%s: reading a directory: %d bytes, error %v", raw, n, err) //nolint:errorlint
		}
	case "close":
		if err := s.hs[a.H].Close(); err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}

		delete(s.hs, a.H)
	}

	return nil
}

func (s *dirSys) entry(e fs.DirEntry, w dirEntryWant) error {
	if e == nil {
		return errors.New("nothing")
	}

	if e.Name() != w.name || e.IsDir() != w.dir || e.Type().IsDir() != w.dir {
		return fmt.Errorf("%s (directory: %v) instead of %s (%v)", e.Name(), e.IsDir(), w.name, w.dir)
	}

	fi, err := e.Info()
	if err != nil {
		return err //nolint:wrapcheck
	}

	if fi.Name() != w.name || fi.IsDir() != w.dir || (!w.dir && fi.Size() != w.size) {
		return fmt.Errorf("information of %s: %s, %v, %d", w.name, fi.Name(), fi.IsDir(), fi.Size())
	}

	return nil
}

func (s *dirSys) End() error {
	for _, f := range s.hs {
		_ = f.Close()
	}

	return nil
}

func dirCursorCmd(c *Ctx) {
	for _, path := range c.Args {
		g := h.Load(path)

		var cfg struct{ Dirs []int }
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		variants := 9
		if !h.Env.Quick() {
			variants = 60
		}

		for v := 0; v < variants; v++ {
			unit := 1
			if v >= variants-3 {
				unit = 30 + c.Rng.Intn(3000)
			}

			a := newDirArchive(cfg.Dirs, v, unit)
			w := &h.Walker{
				G: g, Rng: c.Rng, Name: fmt.Sprintf("directories of %v entries times %d, variant %d", cfg.Dirs, unit, v),
				Ctx: map[string]any{"dirs": a.dirs, "archive": a.data},
				New: func(json.RawMessage) h.System {
					r, err := sevenzip.NewReader(bytes.NewReader(a.data), int64(len(a.data)))
					if err != nil {
						h.Die("%v", err)
					}

					return &dirSys{a, r, map[int]fs.ReadDirFile{}}
				},
			}
			if unit == 1 {
				w.Cover()
				w.Random(50, 60)
			} else {
				w.Random(5, 60)
			}

			w.Done()
			h.Env.Sample(map[string]any{"dirs": cfg.Dirs, "variant": v, "walks": w.Walks, "steps": w.Steps})
		}
	}
}
