package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["registry"] = registryCmd
	commands["registryrun"] = registryRun
}

// marker is a decoder that yields its version over and over.
type marker struct{ v byte }

func (m marker) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = m.v
	}

	return len(p), nil
}

func (marker) Close() error { return nil }

var regWalk uint32

const regSize = 64

type regSys struct {
	prefix  []byte
	builtin bool
	arc     map[string]*sevenzip.Reader
	data    map[string][]byte
	streams map[int]io.ReadCloser
	pos     map[int]int
	content []byte
	plan    *plan
	variant int
}

func newRegSys(builtin bool) *regSys {
	s := &regSys{
		builtin: builtin, arc: map[string]*sevenzip.Reader{}, data: map[string][]byte{},
		streams: map[int]io.ReadCloser{}, pos: map[int]int{}, content: pattern(regSize, 5),
		plan: newPlan("", 0, nil),
	}

	if !builtin {
		// ids nobody has used: 0x7e and the number of the walk
		n := atomic.AddUint32(&regWalk, 1)
		s.variant = int(n)
		s.prefix = []byte{0x7e, byte(n >> 16), byte(n >> 8), byte(n)}
	}

	return s
}

var builtinChain = map[string]string{
	"00": "copy", "03": "delta4", "030101": "lzma", "03030103": "bcj", "040108": "deflate", "040202": "bzip2",
	"21": "lzma2", "06f10701": "aes", "04f71101": "zstd", "04f71104": "lz4", "0a": "arm64", "04f71102": "brotli",
	"03030205": "ppc", "03030501": "arm", "03030805": "sparc",
}

func (s *regSys) id(name string) []byte {
	b, err := hex.DecodeString(name)
	if err != nil {
		h.Die("%v", err)
	}

	return append(append([]byte(nil), s.prefix...), b...)
}

// archive opens a new archive with a stream that uses the id.
func (s *regSys) archive(name string) (*sevenzip.Reader, error) {
	b, ok := s.data[name]
	if !ok {
		var f sz.Folder

		if s.builtin {
			f = enc.Chain(builtinChain[name], s.content)
		} else {
			f = sz.Single(s.id(name), nil, s.content, regSize)
		}

		switch s.variant % 4 {
		case 1: // as the first of two coders
			f = enc.WithTop(f, faultyID, s.plan.props())
		case 2: // as the last of two coders
			if s.builtin {
				break
			}

			f.Coders = append([]sz.Coder{{ID: faultyID, Props: s.plan.props(), Size: regSize}}, f.Coders...)
			f.Binds = []sz.Bind{{In: 1, Out: 0}}
		case 3:
			f = enc.WithTop(enc.WithTop(f, faultyID, s.plan.props()), faultyID, s.plan.props())
		}

		f.Subs = []sz.Sub{{Size: regSize}}
		w := sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "x"}}}
		b = w.Bytes()
		s.data[name] = b
	}

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), enc.Password)
	if err != nil {
		return nil, fmt.Errorf("opening the archive fails: %w", err)
	}

	return r, nil
}

func (s *regSys) Do(raw json.RawMessage) error {
	var a struct {
		Op, ID string
		H, V   int
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	fail := func(format string, v ...any) error { return fmt.Errorf("%s: "+format, append([]any{raw}, v...)...) }

	switch a.Op {
	case "register":
		id := s.id(a.ID)
		v := byte(0xc0 + a.V) //nolint:gosec

		sevenzip.RegisterDecompressor(id, func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error) {
			return marker{v}, nil
		})

		// The slice is the caller's.
		for i := range id {
			id[i] = 0xee
		}
	case "archive":
		r, err := s.archive(a.ID)
		if err != nil {
			return fail("%w", err)
		}

		s.arc[a.ID] = r
	case "open":
		// An archive opened earlier serves as well as a new one.
		r := s.arc[a.ID]
		if r == nil {
			var err error
			if r, err = s.archive(a.ID); err != nil {
				return fail("%w", err)
			}
		}

		rc, err := r.File[0].Open()

		if a.V == 0 {
			if err == nil {
				_ = rc.Close()

				return fail("no error for an id that is not registered")
			}

			var e *sevenzip.ReadError
			if !errors.As(err, &e) {
				return fail("%v is not a ReadError", err)
			}

			return nil
		}

		if err != nil {
			return fail("%w", err)
		}

		s.streams[a.H], s.pos[a.H] = rc, 0
	case "read":
		b := make([]byte, 3)

		if s.pos[a.H]+len(b) > regSize {
			return nil
		}

		if _, err := io.ReadFull(s.streams[a.H], b); err != nil {
			return fail("%w", err)
		}

		for i, x := range b {
			want := byte(0xc0 + a.V) //nolint:gosec
			if a.V == 9 {
				want = s.content[s.pos[a.H]+i]
			}

			if x != want {
				return fail("byte %#x is not from decompressor %d", x, a.V)
			}
		}

		s.pos[a.H] += len(b)
	case "close":
		if err := s.streams[a.H].Close(); err != nil {
			return fail("%w", err)
		}
	}

	return nil
}

func (s *regSys) End() error {
	for _, r := range s.streams {
		_ = r.Close()
	}

	return nil
}

// regProc runs a walk in a process of its own, as built-in methods cannot be
// brought back.
type regProc struct {
	acts []json.RawMessage
}

func (s *regProc) Do(raw json.RawMessage) error {
	s.acts = append(s.acts, raw)

	return nil
}

func (s *regProc) End() error {
	b, _ := json.Marshal(s.acts)
	cmd := exec.Command("/proc/self/exe", "registryrun", "-out", "/dev/null") //nolint:gosec
	cmd.Stdin = bytes.NewReader(b)

	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}

	if cmd.ProcessState.ExitCode() == 1 {
		return errors.New(string(out))
	}

	h.Die("registryrun: %v: %s", err, out)

	return nil
}

func registryRun(*Ctx) {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		h.Die("%v", err)
	}

	var acts []json.RawMessage
	if err := json.Unmarshal(b, &acts); err != nil {
		h.Die("%v", err)
	}

	err = h.Timed(func() {
		s := newRegSys(true)
		s.variant = len(acts)

		for _, a := range acts {
			if err := s.Do(a); err != nil {
				fmt.Println(err) //nolint:forbidigo
				os.Exit(1)
			}
		}
	})
	if err != nil {
		fmt.Println(err) //nolint:forbidigo
		os.Exit(1)
	}

	os.Exit(0)
}

func registryCmd(c *Ctx) {
	for _, path := range c.Args {
		g := h.Load(path)

		var cfg struct{ Initial int }
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		w := &h.Walker{G: g, Rng: c.Rng, Name: fmt.Sprintf("registry, initially %d", cfg.Initial), MaxLen: 120}
		if cfg.Initial == 0 {
			w.New = func(json.RawMessage) h.System { return newRegSys(false) }
			w.Cover()
			w.Random(300, 80)
		} else {
			w.New = func(json.RawMessage) h.System { return &regProc{} }
			w.Cover()
		}

		w.Done()
		h.Env.Sample(map[string]any{"initial": cfg.Initial, "walks": w.Walks, "steps": w.Steps})
	}
}
