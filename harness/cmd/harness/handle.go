package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["handle"] = handleCmd }

type handleArchive struct {
	data     []byte
	contents [][]byte
	names    []string
	units    []int
	bound    [][]int
}

// newHandleArchive writes files of the model's sizes, in one stream or several.
func newHandleArchive(sizes []int, chain string, unit int, solid bool) *handleArchive {
	a := &handleArchive{units: sizes}

	var (
		w   sz.Archive
		all []byte
		sub []sz.Sub
	)

	for i, n := range sizes {
		name := fmt.Sprintf("some/file%d", i)
		a.names = append(a.names, name)

		c := pattern(n*unit, i+1)
		a.contents = append(a.contents, c)

		if n == 0 {
			w.Files = append(w.Files, sz.File{Name: name, Empty: true, EmptyFile: true})

			continue
		}

		w.Files = append(w.Files, sz.File{Name: name})
		s := sz.Sub{Size: uint64(len(c)), CRC: sz.CRC(c)}

		if solid {
			all = append(all, c...)
			sub = append(sub, s)

			continue
		}

		f := enc.Chain(chain, c)
		f.Subs = []sz.Sub{s}
		w.Folders = append(w.Folders, f)
	}

	if solid {
		f := enc.Chain(chain, all)
		f.Subs = sub
		w.Folders = append(w.Folders, f)
	}

	a.data = w.Bytes()

	return a
}

type handleState struct {
	r      io.ReadCloser
	pos    int
	closed bool
}

type handleSys struct {
	a    *handleArchive
	r    *sevenzip.Reader
	rng  *rand.Rand
	unit int
	hs   map[int]*handleState
}

type stater interface{ Stat() (fs.FileInfo, error) }

func (s *handleSys) Do(raw json.RawMessage) error {
	var a struct {
		Op, Via, Reply string
		H, F, B, N, At int
		Again          bool
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	fail := func(format string, v ...any) error { return fmt.Errorf("%s: "+format, append([]any{raw}, v...)...) }

	switch a.Op {
	case "open":
		var (
			r   io.ReadCloser
			err error
		)

		if a.Via == "file" {
			r, err = s.r.File[a.F-1].Open()
		} else {
			r, err = s.r.Open(s.a.names[a.F-1])
		}

		if err != nil {
			return fail("%w", err)
		}

		s.hs[a.H] = &handleState{r: r}
	case "stat":
		st, ok := s.hs[a.H].r.(stater)
		if !ok {
			return fail("the handle has no Stat method")
		}

		fi, err := st.Stat()
		if err != nil {
			return fail("%w", err)
		}

		if fi.Size() != int64(len(s.a.contents[a.F-1])) || fi.IsDir() || fi.Name() != fmt.Sprintf("file%d", a.F-1) {
			return fail("wrong information: %s, %d bytes, mode %v", fi.Name(), fi.Size(), fi.Mode())
		}
	case "close":
		if err := s.hs[a.H].r.Close(); err != nil {
			if a.Again {
				return fail("closing twice: %w", err)
			}

			return fail("%w", err)
		}

		s.hs[a.H].closed = true
	case "drop":
		delete(s.hs, a.H)
	case "read":
		return s.read(a.Reply, a.H, a.F-1, a.B, a.N, fail)
	}

	return nil
}

func (s *handleSys) read(reply string, hn, f, b, n int, fail func(string, ...any) error) error {
	hd := s.hs[hn]
	content := s.a.contents[f]

	size := b * s.unit
	if reply == "bytes+eof" {
		size = len(content) - hd.pos + 1 + s.rng.Intn(3*s.unit)
	}

	// The bytes behind the buffer must stay as they are.
	const guard = 16

	whole := make([]byte, size+guard)
	for i := range whole {
		whole[i] = 0xa5
	}

	buf := whole[:size]

	check := func() error {
		for _, x := range whole[size:] {
			if x != 0xa5 {
				return fail("bytes behind the buffer were changed")
			}
		}

		return nil
	}

	switch reply {
	case "nothing":
		m, err := hd.r.Read(buf[:0])
		if m != 0 || err != nil && !hd.closed && !(errors.Is(err, io.EOF) && hd.pos == len(content)) {
			return fail("an empty read gives %d bytes and error %v", m, err)
		}

		return check()
	case "eof", "noteof?", "error":
		for i := 0; i < 2; i++ {
			m, err := hd.r.Read(buf)
			if m != 0 || err == nil {
				return fail("%d bytes and error %v", m, err)
			}

			if errors.Is(err, io.EOF) != (reply == "eof") && reply != "noteof?" {
				return fail("error %v", err)
			}
		}

		return check()
	}

	want := n * s.unit
	got := 0
	idle := 0

	for got < want {
		m, err := hd.r.Read(buf[got:])
		if m < 0 || m > len(buf)-got {
			return fail("%d bytes read into %d", m, len(buf)-got)
		}

		got += m

		if e := check(); e != nil {
			return e
		}

		if got > want {
			return fail("%d bytes read, the file has only %d left", got, want)
		}

		if err != nil {
			if errors.Is(err, io.EOF) && hd.pos+got == len(content) {
				break
			}

			return fail("after %d bytes: %w", got, err)
		}

		if m == 0 {
			if idle++; idle > 100 {
				return fail("no progress")
			}
		}
	}

	if !bytes.Equal(buf[:got], content[hd.pos:hd.pos+want]) {
		return fail("wrong bytes at %d", hd.pos)
	}

	hd.pos += want

	if reply == "bytes+eof" {
		for i := 0; i < 2; i++ {
			m, err := hd.r.Read(buf)
			if m != 0 || !errors.Is(err, io.EOF) {
				return fail("%d bytes and error %v at the end", m, err)
			}
		}
	}

	return nil
}

func (s *handleSys) End() error {
	for _, hd := range s.hs {
		_ = hd.r.Close()
	}

	return nil
}

func handleCmd(c *Ctx) {
	for _, path := range c.Args {
		g := h.Load(path)

		var cfg struct{ Files []int }
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		run := func(chain string, unit int, solid bool, cover bool, walks int) {
			if h.Env.Failed() {
				return
			}

			a := newHandleArchive(cfg.Files, chain, unit, solid)
			w := &h.Walker{
				G: g, Rng: c.Rng, Name: fmt.Sprintf("%s unit %d solid %v files %v", chain, unit, solid, cfg.Files),
				Ctx: map[string]any{"chain": chain, "unit": unit, "solid": solid, "files": cfg.Files},
				New: func(json.RawMessage) h.System {
					r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(a.data), int64(len(a.data)), enc.Password)
					if err != nil {
						h.Die("%v", err)
					}

					return &handleSys{a, r, c.Rng, unit, map[int]*handleState{}}
				},
			}

			if cover {
				w.Cover()
			}

			w.Random(walks, 50)
			w.Done()
			h.Env.Sample(map[string]any{"chain": chain, "unit": unit, "solid": solid, "walks": w.Walks, "steps": w.Steps})
		}

		n := 20
		if !h.Env.Quick() {
			n = 400
		}

		for _, solid := range []bool{true, false} {
			run("copy", 1, solid, true, n)
			run("copy", 5000, solid, false, n)
			run("lzma2", 3, solid, true, n)

			for _, ch := range enc.Chains {
				if ch != "ppmd" {
					run(ch, 1+c.Rng.Intn(300), solid, false, n)
					run(ch, 20000, solid, false, n/4)
				}
			}
		}
	}
}
