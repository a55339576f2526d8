package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["errors"] = errorsCmd }

// Faulty coders pass their input on and fail as planned.
var (
	faultyID      = []byte{0x7f, 0x76, 0x02}
	faultyCryptID = []byte{0x7f, 0x76, 0x03}
	unknownID     = []byte{0x7f, 0x76, 0x05}

	plans    sync.Map
	planNext uint64
)

type plan struct {
	mode  string
	at    int64 // how many bytes come before the failure
	cause error
	id    uint64
}

func newPlan(mode string, at int, cause error) *plan {
	p := &plan{mode, int64(at), cause, atomic.AddUint64(&planNext, 1)}
	plans.Store(p.id, p)

	return p
}

func (p *plan) props() []byte { return binary.LittleEndian.AppendUint64(nil, p.id) }
func (p *plan) drop()         { plans.Delete(p.id) }

type faulty struct {
	*plan
	in  io.ReadCloser
	pos int64
}

type faultyCrypt struct {
	*faulty
	set bool
}

func newFaulty(p []byte, in []io.ReadCloser) (*faulty, error) {
	if len(p) != 8 || len(in) != 1 {
		return nil, errors.New("faulty: bad properties")
	}

	v, ok := plans.Load(binary.LittleEndian.Uint64(p))
	if !ok {
		return nil, errors.New("faulty: no plan")
	}

	pl := v.(*plan) //nolint:forcetypeassert
	if pl.mode == "construct" {
		return nil, pl.cause
	}

	return &faulty{plan: pl, in: in[0]}, nil
}

func init() {
	sevenzip.RegisterDecompressor(faultyID, func(p []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		f, err := newFaulty(p, in)
		if err != nil {
			return nil, err
		}

		return f, nil
	})
	sevenzip.RegisterDecompressor(faultyCryptID, func(p []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		f, err := newFaulty(p, in)
		if err != nil {
			return nil, err
		}

		return &faultyCrypt{f, false}, nil
	})
}

func (f *faulty) Read(p []byte) (int, error) {
	if f.mode == "read" || f.mode == "early" {
		if f.pos == f.at {
			if f.mode == "early" {
				return 0, io.EOF
			}

			return 0, f.cause
		}

		p = p[:min(int64(len(p)), f.at-f.pos)]
	}

	n, err := f.in.Read(p)
	f.pos += int64(n)

	return n, err //nolint:wrapcheck
}

func (f *faulty) Close() error { return f.in.Close() } //nolint:wrapcheck

func (f *faultyCrypt) Password(p string) error {
	if f.mode == "password" {
		return f.cause
	}

	if p != enc.Password {
		return errors.New("faulty: wrong password")
	}

	f.set = true

	return nil
}

func (f *faultyCrypt) Read(p []byte) (int, error) {
	if !f.set {
		return 0, errors.New("faulty: no password was set")
	}

	return f.faulty.Read(p)
}

type errorCase struct {
	C struct {
		Chain                     []string
		Mode, Place, Want, Before string
		At                        int
	}
	Out struct {
		Stage string
		Hint  bool
	}
}

// A storage that fails where it is told to.
type badStorage struct {
	data     []byte
	from, to int64 // reads that touch this range fail
	cause    error
}

func (b *badStorage) ReadAt(p []byte, off int64) (int, error) {
	if b.cause != nil && off < b.to && off+int64(len(p)) > b.from {
		n := 0
		if off < b.from {
			n = copy(p, b.data[off:b.from])
		}

		return n, b.cause
	}

	return bytes.NewReader(b.data).ReadAt(p, off) //nolint:wrapcheck
}

func errorsCmd(c *Ctx) {
	rounds := 2
	if !h.Env.Quick() {
		rounds = 30
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs errorCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			return errorsCheck(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n*rounds+i)))) //nolint:gosec
		})
	}
}

var (
	errorsPlain = []string{"", "copy", "delta4", "bcj", "arm", "ppc", "sparc", "arm64", "delta256"}
	errorsCrypt = []string{"", "aes"}
)

//nolint:cyclop,funlen,gocognit,gocyclo,maintidx
func errorsCheck(cs *errorCase, rng *rand.Rand) error {
	const size = 40000

	cause := errors.New("planted failure")
	files := [][]byte{pattern(size, 1), pattern(size, 2)}

	var used []*plan

	defer func() {
		for _, p := range used {
			p.drop()
		}
	}()

	names := make([]string, len(cs.C.Chain))

	// chain builds a folder; without a failure if mode is empty.
	chain := func(kinds []string, mode string, at int, content []byte, failAt int) sz.Folder {
		f := sz.Folder{Coders: make([]sz.Coder, len(kinds)), Packed: []uint64{0}}
		cur := content

		for i := len(kinds) - 1; i >= 0; i-- {
			fails := mode != "" && at == i+1
			l := errorsPlain

			if kinds[i] == "crypt" {
				l = errorsCrypt
			}

			name := l[rng.Intn(len(l))]
			if fails && (mode == "read" || mode == "early") {
				name = ""
			}

			var id, props []byte

			next := cur

			if name == "" {
				m := ""
				if fails {
					m = mode
				}

				p := newPlan(m, failAt, cause)
				used = append(used, p)

				id, props = faultyID, p.props()
				if kinds[i] == "crypt" {
					id = faultyCryptID
				}
			} else {
				st := enc.Steps[name]
				id = st.ID
				props, next = st.Make(cur)

				if fails && mode == "construct" {
					if name != "aes" {
						id = enc.Steps["delta4"].ID
					}

					props = []byte{1, 2, 3}
				}

				if fails && mode == "password" {
					props[0] = props[0]&0xc0 | 40
				}

				if fails && (mode == "construct" || mode == "password") {
					cause = nil // it is the method's own
				}
			}

			if fails && mode == "unregistered" {
				id = unknownID
				cause = nil
			}

			f.Coders[i] = sz.Coder{ID: id, Props: props, Size: uint64(len(cur))}
			cur = next

			if i > 0 {
				f.Binds = append(f.Binds, sz.Bind{In: uint64(i), Out: uint64(i - 1)})
			}

			if i < len(names) && mode != "" {
				names[i] = name
			}
		}

		f.Streams = [][]byte{cur}

		return f
	}

	mode := cs.C.Mode
	failAt := map[string]int{"start": 0, "half": size * 3 / 4, "second": size * 3 / 2}[cs.C.Place]

	var (
		a  sz.Archive
		st badStorage
	)

	skip := 0

	if cs.C.Before != "none" {
		b := chain([]string{"plain", cs.C.Before}, "", 0, []byte("before"), 0)
		b.Subs = []sz.Sub{{Size: 6}}
		a.Folders = append(a.Folders, b)
		a.Files = append(a.Files, sz.File{Name: "before"})
		skip = 1
		st.from = int64(len(b.Streams[0]))
	}

	if cs.C.Want == "header" {
		// An ordinary file, the failure is in what the header is encoded with.
		f := sz.Single(sz.Copy, nil, files[0], size)
		f.Subs = []sz.Sub{{Size: size}}
		a.Folders = append(a.Folders, f)
		a.Files = append(a.Files, sz.File{Name: "one"})
		a.EncodeHeader = func(hd []byte) sz.Folder {
			if mode == "garbage" {
				hd = pattern(100, 3)
				hd[0] = byte(2 + rng.Intn(200))

				if rng.Intn(3) == 0 {
					hd[0], hd[1] = 1, 0x1f
				}
			}

			at := 0
			if cs.C.Place == "half" {
				at = 1 + rng.Intn(len(hd)-2)
			}

			f := chain(cs.C.Chain, mode, cs.C.At, hd, at)
			st.from = size + int64(at)

			if rng.Intn(2) == 0 && mode != "garbage" {
				f.CRC = sz.CRC(hd)
			}

			return f
		}
	} else {
		f := chain(cs.C.Chain, mode, cs.C.At, bytes.Join(files, nil), failAt)
		st.from += int64(failAt)
		f.Subs = []sz.Sub{{Size: size}, {Size: size}}
		a.Folders = append(a.Folders, f)
		a.Files = append(a.Files, sz.File{Name: "one"}, sz.File{Name: "two"})
	}

	st.data = a.Bytes()
	st.from += 32
	st.to = int64(len(st.data))

	if cs.C.Want == "header" {
		// Not the header that describes the encoded one.
		st.to = int64(binary.LittleEndian.Uint64(st.data[12:])) + 32 //nolint:gosec
	}

	bad := cause

	verdict := func(stage string, err error) error {
		if cs.Out.Stage != stage {
			return fmt.Errorf("steps %q: failure while doing %q: %w", names, stage, err)
		}

		var re *sevenzip.ReadError
		if !errors.As(err, &re) {
			return fmt.Errorf("steps %q: not a ReadError: %w", names, err)
		}

		if re.Encrypted != cs.Out.Hint {
			return fmt.Errorf("steps %q: the hint is %v: %w", names, re.Encrypted, err)
		}

		if cause != nil && (mode == "construct" || mode == "password" || mode == "read" || mode == "storage") && !errors.Is(err, bad) {
			return fmt.Errorf("steps %q: the cause is lost: %w", names, err)
		}

		if stage == "read" && errors.Is(err, io.EOF) {
			return fmt.Errorf("steps %q: the error is io.EOF: %w", names, err)
		}

		return nil
	}

	if mode == "storage" && cs.C.Want == "header" {
		st.cause = bad
	}

	// The signature search looks at everything, so it comes first.
	r, err := newReaderAfterSearch(&st)
	if err != nil {
		return verdict("archive", err)
	}

	if cs.Out.Stage == "archive" {
		return fmt.Errorf("steps %q: the archive opens", names)
	}

	if cs.C.Want == "header" {
		return nil
	}

	if skip > 0 {
		if b, err := graphRead(r.File[0]); err != nil || string(b) != "before" {
			return fmt.Errorf("the other stream: %q, %w", b, err)
		}
	}

	if cs.C.Want == "idle" {
		rc, err := r.File[skip].Open()
		if err != nil {
			return fmt.Errorf("steps %q: %w", names, err)
		}

		b := make([]byte, size/2)
		if _, err := io.ReadFull(rc, b); err != nil || !bytes.Equal(b, files[0][:size/2]) {
			return fmt.Errorf("steps %q: the first half: %w", names, err)
		}

		if err := rc.Close(); err != nil {
			return fmt.Errorf("steps %q: %w", names, err)
		}
	}

	if mode == "storage" {
		st.cause = bad
	}

	f, content := r.File[skip], files[0]
	if cs.C.Want != "first" {
		f, content = r.File[skip+1], files[1]
	}

	rc, err := f.Open()
	if err != nil {
		return verdict("open", err)
	}

	if cs.Out.Stage == "open" {
		return fmt.Errorf("steps %q: the file opens", names)
	}

	b, err := io.ReadAll(rc)
	if !bytes.HasPrefix(content, b) {
		return fmt.Errorf("steps %q: wrong content", names)
	}

	if err != nil {
		if e := verdict("read", err); e != nil {
			return e
		}

		if _, again := rc.Read(make([]byte, 10)); again == nil {
			return fmt.Errorf("steps %q: no error the second time", names)
		} else if e := verdict("read", again); e != nil {
			return fmt.Errorf("the second time: %w", e)
		}
	} else if cs.Out.Stage != "none" || len(b) != len(content) {
		return fmt.Errorf("steps %q: %d bytes and no error", names, len(b))
	}

	if err := rc.Close(); err != nil {
		return fmt.Errorf("closing: %w", err)
	}

	return nil
}

// newReaderAfterSearch opens an archive that starts at once, so that the search
// for it only reads the first piece.
func newReaderAfterSearch(st *badStorage) (*sevenzip.Reader, error) {
	return sevenzip.NewReaderWithPassword(&searchFirst{badStorage: st}, int64(len(st.data)), enc.Password) //nolint:wrapcheck
}

type searchFirst struct {
	*badStorage
	n int
}

func (s *searchFirst) ReadAt(p []byte, off int64) (int, error) {
	if s.n++; s.n == 1 && off == 0 {
		return bytes.NewReader(s.data).ReadAt(p, off) //nolint:wrapcheck
	}

	return s.badStorage.ReadAt(p, off)
}
