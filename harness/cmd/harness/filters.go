package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["filters"] = filtersCmd
	commands["filtersfar"] = filtersFarCmd
}

// The method of a decoder that delivers zeros and then bytes.
var zerosID = []byte{0x7f, 0x7a, 0x73}

type zeros struct {
	n int64
	r io.Reader
}

func (z *zeros) Close() error { return nil }

func (z *zeros) Read(p []byte) (int, error) {
	if z.n == 0 {
		return z.r.Read(p) //nolint:wrapcheck
	}

	n := int(min(int64(len(p)), z.n))
	clear(p[:n])
	z.n -= int64(n)

	return n, nil
}

type zerosPlan struct {
	n    int64
	tail []byte
}

var (
	zerosPlans sync.Map
	zerosNext  atomic.Uint64
	zerosOnce  sync.Once
)

func zerosRegister() {
	zerosOnce.Do(func() {
		sevenzip.RegisterDecompressor(zerosID, func(p []byte, _ uint64, _ []io.ReadCloser) (io.ReadCloser, error) {
			v, _ := zerosPlans.LoadAndDelete(binary.BigEndian.Uint64(p))
			pl := v.(*zerosPlan) //nolint:forcetypeassert

			return &zeros{pl.n, bytes.NewReader(pl.tail)}, nil
		})
	})
}

type filterCase struct {
	F      string  `json:"f"`
	Start  int64   `json:"start"`
	Choice string  `json:"choice"`
	Plain  []int   `json:"plain"`
	Coded  [][]int `json:"coded"`
}

func (c *filterCase) bytes() (plain []byte, coded [][]byte) {
	conv := func(v []int) []byte {
		b := make([]byte, len(v))
		for i := range v {
			b[i] = byte(v[i]) //nolint:gosec
		}

		return b
	}

	for _, v := range c.Coded {
		coded = append(coded, conv(v))
	}

	return conv(c.Plain), coded
}

var filterIDs = map[string]struct{ id, props []byte }{
	"bcj": {sz.BCJ, nil}, "arm": {sz.ARM, nil}, "arm64": {sz.ARM64, nil}, "ppc": {sz.PPC, nil}, "sparc": {sz.SPARC, nil},
	"delta1": {sz.Delta, []byte{0}}, "delta2": {sz.Delta, []byte{1}}, "delta3": {sz.Delta, []byte{2}},
}

// filterFolder has a filter read n zeros and then what was coded.
func filterFolder(name string, n int64, plain int, coded [][]byte) sz.Folder {
	f := sz.Folder{}
	size := uint64(n) + uint64(plain) //nolint:gosec

	for i := range coded {
		id, props, length := sz.Copy, []byte(nil), uint64(len(coded[i]))

		if i == 0 && n > 0 {
			id, length = zerosID, length+uint64(n) //nolint:gosec
			k := zerosNext.Add(1)
			props = binary.BigEndian.AppendUint64(nil, k)

			zerosPlans.Store(k, &zerosPlan{n, coded[i]})
		}

		if len(coded) == 1 && n == 0 {
			break
		}

		f.Coders = append(f.Coders, sz.Coder{ID: id, Props: props, Size: length})
		f.Binds = append(f.Binds, sz.Bind{In: uint64(len(coded) + i), Out: uint64(i)}) //nolint:gosec
	}

	for i := range coded {
		f.Packed = append(f.Packed, uint64(i)) //nolint:gosec
	}

	f.Streams = coded
	f.Subs = []sz.Sub{{Size: size}}

	if name == "bcj2" {
		f.Coders = append(f.Coders, sz.Coder{ID: sz.BCJ2, In: 4, Size: size})
	} else {
		f.Coders = append(f.Coders, sz.Coder{ID: filterIDs[name].id, Props: filterIDs[name].props, Size: size})
	}

	return f
}

// filterRead decodes the folder and returns what follows the first n bytes,
// read in portions chosen by rng unless that's nil.
func filterRead(f sz.Folder, n int64, rng *rand.Rand) ([]byte, error) {
	a := sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "a"}}}
	b := a.Bytes()

	r, err := sevenzip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, fmt.Errorf("opening: %w", err)
	}

	rc, err := r.File[0].Open()
	if err != nil {
		return nil, fmt.Errorf("opening the file: %w", err)
	}

	defer rc.Close()

	buf := make([]byte, 1<<18)
	for n > 0 {
		m, err := io.ReadFull(rc, buf[:min(n, int64(len(buf)))])
		if err != nil {
			return nil, fmt.Errorf("reading the zeros: %w", err)
		}

		for _, x := range buf[:m] {
			if x != 0 {
				return nil, fmt.Errorf("a zero was changed") //nolint:err113
			}
		}

		n -= int64(m)
	}

	var rd io.Reader = rc
	if rng != nil {
		rd = &portions{rc, rng, []int{2, 9, 40, 300, 2000, 70000, 1 << 20}[rng.Intn(7)]}
	}

	var all bytes.Buffer

	_, err = io.CopyBuffer(struct{ io.Writer }{&all}, struct{ io.Reader }{rd}, buf)
	out := all.Bytes()

	if err != nil {
		return nil, fmt.Errorf("reading: %w", err)
	}

	return out, nil
}

// portions reads at most max bytes at once.
type portions struct {
	r   io.Reader
	rng *rand.Rand
	max int
}

func (p *portions) Read(b []byte) (int, error) {
	return p.r.Read(b[:min(len(b), 1+p.rng.Intn(p.max))]) //nolint:wrapcheck
}

func filterChoose(choice string) func(int) bool {
	return func(i int) bool { return choice == "all" || choice == "some" && (i+1)%3 != 0 }
}

// filterCompare runs a case of the specification.
func filterCompare(c *filterCase, start int64, rng *rand.Rand) error {
	plain, coded := c.bytes()

	out, err := filterRead(filterFolder(c.F, start, len(plain), coded), start, rng)
	if err != nil {
		return err
	}

	if !bytes.Equal(out, plain) {
		return fmt.Errorf("%s at %d: %x was decoded to %x, not %x", c.F, start, coded, out, plain) //nolint:err113
	}

	return nil
}

// filterOurs checks that the encoders used in other checks do what is specified.
func filterOurs(c *filterCase) {
	plain, coded := c.bytes()
	all := append(make([]byte, c.Start), plain...)

	var o [][]byte

	switch c.F {
	case "bcj2":
		v := enc.BCJ2(all, filterChoose(c.Choice))
		o = v[:]
	case "delta1", "delta2", "delta3":
		o = [][]byte{enc.Delta(all, int(c.F[5]-'0'))}
	default:
		_, b := enc.Steps[c.F].Make(all)
		o = [][]byte{b}
	}

	o[0] = o[0][c.Start:]

	for i := range coded {
		if !bytes.Equal(coded[i], o[i]) {
			h.Die("%s of %x at %d is %x, not %x", c.F, plain, c.Start, coded[i], o[i])
		}
	}
}

func filtersCmd(c *Ctx) {
	zerosRegister()

	h.Cases(c.Args, func(i int, line []byte) error {
		var fc filterCase
		if err := json.Unmarshal(line, &fc); err != nil {
			h.Die("%v", err)
		}

		if len(fc.Plain) == 0 {
			return nil
		}

		filterOurs(&fc)

		if err := filterCompare(&fc, fc.Start, nil); err != nil {
			return err
		}

		return filterCompare(&fc, fc.Start, rand.New(rand.NewSource(c.Seed*86028121+int64(i)))) //nolint:gosec
	})

	filterBoundaries(c)

	// Sequences that are longer than what filters hold.
	names := []string{"bcj", "bcj2", "arm", "arm64", "ppc", "sparc"}
	deltas := 256 * 8
	n := deltas + 60*len(names)

	if !h.Env.Quick() {
		n = deltas + 2000*len(names)
	}

	h.Parallel(n, func(i int) {
		rng := rand.New(rand.NewSource(c.Seed*86028121 + int64(i))) //nolint:gosec
		size := 1 + rng.Intn([]int{100, 5000, 70000, 1 << 18}[rng.Intn(4)])

		if i >= deltas && i%50 == 0 || i%(8*50) == 7 {
			size += 1 << 20
		}

		var (
			f    sz.Folder
			name string
			b    []byte
		)

		if i < deltas {
			// Every distance with sizes below, at and above it
			d := 1 + i/8
			name = fmt.Sprint("delta", d)

			if k := i % 8; k < 6 {
				size = max(1, []int{d - 1, d, d + 1, 2*d - 1, 3*d + d/2, 5*d + 1}[k])
			}

			b = chunkContent("delta", size, rng)
			f = sz.Single(sz.Delta, []byte{byte(d - 1)}, enc.Delta(b, d), len(b)) //nolint:gosec
			f.Subs = []sz.Sub{{Size: uint64(len(b))}}                             //nolint:gosec
		} else {
			name = names[i%len(names)]
			b = chunkContent(name, size, rng)

			coded := [][]byte{nil}

			if name == "bcj2" {
				k := 1 + rng.Intn(9)
				v := enc.BCJ2(b, func(pos int) bool { return pos%k != 0 || pos%7 == 1 })
				coded = v[:]
			} else {
				_, coded[0] = enc.Steps[name].Make(b)
			}

			f = filterFolder(name, 0, len(b), coded)
		}

		var err error

		for k := 0; k < 3 && err == nil; k++ {
			var out []byte

			chunks := rng
			if k == 0 {
				chunks = nil
			}

			err = h.Timed(func() {
				var e error

				out, e = filterRead(f, 0, chunks)
				if e != nil {
					out = []byte(e.Error())
				}
			})
			if err == nil && !bytes.Equal(out, b) {
				err = fmt.Errorf("%s: %s", name, differ(out, b)) //nolint:err113
			}

			h.Env.Count("long", 1)
		}

		if err != nil {
			h.Env.Fail("long "+name, err.Error(), map[string]any{"seed": c.Seed, "number": i, "filter": name, "size": size})
		}
	})
}

// filterBoundaries has branches right behind what the filters may hold at once.
func filterBoundaries(c *Ctx) {
	branches := []struct {
		name string
		code []byte
	}{
		{"bcj", []byte{0x0f, 0xe8, 1, 2, 3, 0}}, {"bcj", []byte{0xe9, 0xe8, 1, 2, 3, 0xff}},
		{"bcj2", []byte{0x0f, 0x80, 1, 2, 3, 4}}, {"bcj2", []byte{0x0f, 0xe8, 1, 2, 3, 4}},
		{"bcj2", []byte{0x33, 0xe8, 1, 2, 3, 4, 0x44, 0xe8, 4, 3, 2, 1}}, {"bcj2", []byte{0x0f, 0x0f, 0x8f, 1, 2, 3, 4, 0xe9, 4, 3, 2, 1}},
		{"arm", []byte{1, 2, 3, 0xeb}}, {"arm64", []byte{1, 2, 3, 0x94}}, {"arm64", []byte{0x21, 0, 0, 0x90}},
		{"ppc", []byte{0x48, 2, 3, 1}}, {"sparc", []byte{0x40, 0, 1, 2}},
	}

	h.Parallel(len(branches)*3*17, func(i int) {
		br := branches[i%len(branches)]
		k := i / len(branches)
		at := []int{4096, 1 << 16, 1 << 17}[k%3] + k/3 - 8
		rng := rand.New(rand.NewSource(c.Seed*472882027 + int64(i))) //nolint:gosec

		if br.name[0] != 'b' {
			at = at / 4 * 4
		}

		b := bytes.Repeat([]byte{0x41}, at)
		b = append(b, br.code...)
		b = append(b, bytes.Repeat([]byte{0x42}, rng.Intn(3)*rng.Intn(70000))...)

		coded := [][]byte{nil}

		if br.name == "bcj2" {
			v := enc.BCJ2(b, func(int) bool { return true })
			coded = v[:]
		} else {
			_, coded[0] = enc.Steps[br.name].Make(b)
		}

		for k := 0; k < 4; k++ {
			var (
				out    []byte
				chunks *rand.Rand
			)

			if k > 0 {
				chunks = rng
			}

			err := h.Timed(func() {
				var e error

				out, e = filterRead(filterFolder(br.name, 0, len(b), coded), 0, chunks)
				if e != nil {
					out = []byte(e.Error())
				}
			})
			if err == nil && !bytes.Equal(out, b) {
				err = fmt.Errorf("%s with a branch at %d: %s", br.name, at, differ(out, b)) //nolint:err113
			}

			h.Env.Count("boundaries", 1)

			if err != nil {
				h.Env.Fail("boundary "+br.name, err.Error(), map[string]any{"filter": br.name, "at": at, "branch": br.code})
			}
		}
	})
}

// filtersFarCmd runs cases that start below 4 GiB.
func filtersFarCmd(c *Ctx) {
	zerosRegister()

	var lines [][]byte

	for _, a := range c.Args {
		h.Lines(a, func(b []byte) { lines = append(lines, append([]byte(nil), b...)) })
	}

	h.Parallel(len(lines), func(i int) {
		var fc filterCase
		if err := json.Unmarshal(lines[i], &fc); err != nil {
			h.Die("%v", err)
		}

		if len(fc.Plain) == 0 || fc.Choice == "none" {
			return
		}

		// It is slow.
		if fc.F == "bcj2" && fc.Start > -1<<31+1000 && h.Env.Quick() {
			return
		}

		start := fc.Start + 1<<32

		var err error

		if e := h.Guard(func() { err = filterCompare(&fc, start, nil) }); e != nil {
			err = e
		}

		h.Env.Count("far", 1)
		h.Env.Count("zeros", int(start))

		if err != nil {
			h.Env.Fail(string(lines[i]), err.Error(), json.RawMessage(lines[i]))
		}
	})
}
