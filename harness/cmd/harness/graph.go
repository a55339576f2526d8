package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/h"
	"verif/sz"
)

func init() { commands["graph"] = graphCmd }

// Wire coders decode to text that names them, their properties and size, and
// what they read from their inputs.
var wireID = []byte{0x7f, 0x76, 0x04}

type wire struct {
	head string
	pad  int
	fold byte
	in   []io.ReadCloser
	out  *bytes.Reader
	err  error
}

func wireText(n int, size uint64, in []string) string {
	return fmt.Sprintf("<%d/%d/%d %s>", n, size, len(in), strings.Join(in, "|"))
}

// wireSizes are what a coder's output may be folded or stretched to.
var wireSizes = []int{0, 7, 40, 700, 4096, 9000, 70000}

// wireFold turns text into another one of the given size that depends on all of it.
func wireFold(text string, size int) string {
	sum := sha256.Sum256([]byte(text))
	s := fmt.Sprintf("{%x}", sum[:9])

	return strings.Repeat(s, size/len(s)+1)[:size]
}

func init() {
	sevenzip.RegisterDecompressor(wireID, func(p []byte, size uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		if len(p) != 4 {
			return nil, errors.New("wire: bad properties")
		}

		for _, r := range in {
			if r == nil {
				return nil, errors.New("wire: an input is missing")
			}
		}

		fold := p[3]
		p = append(slices.Clone(p[:3]), 0)

		return &wire{fold: fold, head: fmt.Sprint(binary.LittleEndian.Uint32(p)), in: append([]io.ReadCloser(nil), in...), pad: int(size)}, nil //nolint:gosec
	})
}

func (w *wire) Read(p []byte) (int, error) {
	if w.out == nil && w.err == nil {
		var t []string

		// From the last input to the first, to catch any order imposed on them.
		for i := len(w.in) - 1; i >= 0; i-- {
			b, err := io.ReadAll(w.in[i])
			if err != nil {
				w.err = err

				return 0, err //nolint:wrapcheck
			}

			t = append(t, string(b))
		}

		for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
			t[i], t[j] = t[j], t[i]
		}

		s := fmt.Sprintf("<%s/%d/%d %s>", w.head, w.pad, len(w.in), strings.Join(t, "|"))
		if w.fold != 0 {
			s = wireFold(s, w.pad)
		}

		w.out = bytes.NewReader([]byte(s))
	}

	if w.err != nil {
		return 0, w.err
	}

	return w.out.Read(p) //nolint:wrapcheck
}

func (w *wire) Close() error {
	var errs []error
	for _, r := range w.in {
		errs = append(errs, r.Close())
	}

	return errors.Join(errs...)
}

type graphSource struct {
	Kind string
	N    int
}

type graphCase struct {
	C struct {
		Shape  []int
		Binds  []struct{ I, O int }
		Packed []int
	}
	Answer       string
	Built        [][]graphSource
	Main, Packed int
}

// wireFolder returns the folder of a case and what it decodes to.
func wireFolder(cs *graphCase, base, fold int) (sz.Folder, string) {
	var f sz.Folder

	// Half of the cases have coders whose output is smaller or larger than their input.
	folds := make([]byte, len(cs.C.Shape))

	for i := range folds {
		if fold%2 == 1 {
			folds[i] = byte(fold / 2 >> i % len(wireSizes))
		}
	}

	for i := 0; i < cs.Packed; i++ {
		f.Streams = append(f.Streams, []byte(fmt.Sprintf("p%d.%s", base+i, strings.Repeat("=", i*3))))
	}

	texts := make([]string, len(cs.C.Shape))
	sizes := make([]uint64, len(cs.C.Shape))

	var build func(n int) string

	build = func(n int) string {
		if texts[n] != "" {
			return texts[n]
		}

		var t []string

		for _, s := range cs.Built[n] {
			if s.Kind == "packed" {
				t = append(t, string(f.Streams[s.N-1]))
			} else {
				t = append(t, build(s.N-1))
			}
		}

		if k := folds[n]; k != 0 {
			size := wireSizes[k] + n
			texts[n], sizes[n] = wireFold(wireText(base+n, uint64(size), t), size), uint64(size)

			return texts[n]
		}

		// The size is part of the text.
		for size := uint64(0); ; size++ {
			if s := wireText(base+n, size, t); uint64(len(s)) == size {
				texts[n], sizes[n] = s, size

				return s
			} else if size > 1<<18 {
				h.Die("no size")
			}
		}
	}

	for n := range cs.Built {
		build(n)
	}

	for n, in := range cs.C.Shape {
		p := make([]byte, 4)
		binary.LittleEndian.PutUint32(p, uint32(base+n)) //nolint:gosec
		p[3] = folds[n]

		size := sizes[n]
		if size == 0 {
			size = uint64(100 + n) //nolint:gosec
		}

		f.Coders = append(f.Coders, sz.Coder{ID: wireID, Props: p, In: uint64(in), Size: size}) //nolint:gosec
	}

	for _, b := range cs.C.Binds {
		f.Binds = append(f.Binds, sz.Bind{In: uint64(b.I), Out: uint64(b.O)}) //nolint:gosec
	}

	for _, p := range cs.C.Packed {
		f.Packed = append(f.Packed, uint64(p)) //nolint:gosec
	}

	if len(f.Packed) == 0 {
		f.Packed = []uint64{0}
	}

	if cs.Answer != "reject" {
		f.Subs = []sz.Sub{{Size: sizes[cs.Main-1]}}

		return f, texts[cs.Main-1]
	}

	f.Subs = []sz.Sub{{Size: 100}}

	return f, ""
}

// A folder of three coders and four packed streams to go before or after.
var graphOther = &graphCase{Answer: "ok", Main: 3, Packed: 4}

func init() {
	graphOther.C.Shape = []int{1, 2, 3}
	graphOther.C.Binds = []struct{ I, O int }{{4, 0}, {3, 1}}
	graphOther.C.Packed = []int{5, 0, 2, 1}
	graphOther.Built = [][]graphSource{
		{{"packed", 2}}, {{"packed", 4}, {"packed", 3}}, {{"coder", 2}, {"coder", 1}, {"packed", 1}},
	}
}

func graphCmd(c *Ctx) {
	h.Cases(c.Args, func(n int, line []byte) error {
		var cs graphCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		return graphCheck(&cs, n+int(c.Seed))
	})
}

func graphCheck(cs *graphCase, n int) error {
	f, want := wireFolder(cs, 10, n/16)
	o, otherWant := wireFolder(graphOther, 50, n/32)

	folders := []sz.Folder{f}
	wants := []string{want}

	switch n % 4 {
	case 1:
		folders, wants = []sz.Folder{o, f}, []string{otherWant, want}
	case 2:
		folders, wants = []sz.Folder{f, o}, []string{want, otherWant}
	case 3:
		folders, wants = []sz.Folder{o, f, o}, []string{otherWant, want, otherWant}
	}

	a := sz.Archive{Folders: folders, NoSubStreams: n%8 >= 4}
	for i := range folders {
		a.Files = append(a.Files, sz.File{Name: fmt.Sprint("f", i)})
	}

	data := a.Bytes()

	r, err := sevenzip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		if cs.Answer == "ok" { // otherwise that is as good a place as any
			return fmt.Errorf("opening the archive: %w", err)
		}

		return nil
	}

	if len(r.File) != len(folders) {
		return fmt.Errorf("%d files", len(r.File))
	}

	order := make([]int, len(folders))
	for i := range order {
		order[i] = i
	}

	if n%16 >= 8 {
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	}

	for _, i := range order {
		if wants[i] != "" && !(cs.Answer == "reorder" && wants[i] == want) &&
			r.File[i].UncompressedSize != uint64(len(wants[i])) {
			return fmt.Errorf("file %d has size %d instead of %d", i, r.File[i].UncompressedSize, len(wants[i]))
		}

		b, err := graphRead(r.File[i])

		if wants[i] == "" {
			if err == nil {
				return fmt.Errorf("read %q without an error", b)
			}

			continue
		}

		// In another order it would make sense: that may be an error.
		if err != nil && cs.Answer == "reorder" && wants[i] == want {
			continue
		}

		if err != nil {
			return fmt.Errorf("file %d: %w", i, err)
		}

		if string(b) != wants[i] {
			return fmt.Errorf("file %d is %q instead of %q", i, b, wants[i])
		}
	}

	return nil
}

func graphRead(f *sevenzip.File) ([]byte, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err //nolint:wrapcheck
	}

	b, err := io.ReadAll(rc)
	if e := rc.Close(); err == nil {
		err = e
	}

	return b, err //nolint:wrapcheck
}
