package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"slices"

	"github.com/bodgit/sevenzip"
	"verif/h"
	"verif/sz"
)

func init() { commands["far"] = farCmd }

// farStore is an archive whose packed data is not kept but told from where it
// lies.
type farStore struct {
	prefix int64
	frame  []byte // the 32 bytes in front of the packed data
	end    int64  // length of the packed data
	header []byte
}

func (s *farStore) Size() int64 { return s.prefix + 32 + s.end + int64(len(s.header)) }

func farWord(w uint64) uint64 {
	w *= 0x9e3779b97f4a7c15

	return w ^ w>>29
}

// farFill fills p with the packed data from at on.
func farFill(p []byte, at int64) {
	var b [8]byte

	for len(p) > 0 {
		if at&7 == 0 && len(p) >= 8 {
			binary.LittleEndian.PutUint64(p, farWord(uint64(at)>>3)) //nolint:gosec

			p = p[8:]
			at += 8

			continue
		}

		binary.LittleEndian.PutUint64(b[:], farWord(uint64(at)>>3)) //nolint:gosec

		n := copy(p, b[at&7:])
		p = p[n:]
		at += int64(n)
	}
}

func (s *farStore) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}

	n := 0

	for n < len(p) {
		at := off + int64(n)

		switch {
		case at < s.prefix:
			m := min(int64(len(p)-n), s.prefix-at)
			for i := range m {
				p[n+int(i)] = 'x'
			}

			n += int(m)
		case at < s.prefix+32:
			n += copy(p[n:], s.frame[at-s.prefix:])
		case at < s.prefix+32+s.end:
			at -= s.prefix + 32
			m := int(min(int64(len(p)-n), s.end-at))
			farFill(p[n:n+m], at)
			n += m
		case at < s.Size():
			n += copy(p[n:], s.header[at-s.prefix-32-s.end:])
		default:
			return n, io.EOF
		}
	}

	return n, nil
}

type farNumber [3]uint64

func (n farNumber) value() uint64 { return n[0] + n[1]<<21 + n[2]<<42 }

type farCase struct {
	Pos, End farNumber
	Files    []struct {
		Stream, Nth int
		Size, Start farNumber
	}
}

func farCmd(c *Ctx) {
	every := 150
	if !h.Env.Quick() {
		every = 8
	}

	h.Cases(c.Args, func(n int, line []byte) error {
		var cs farCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		// Going far into a stream takes time.
		return farCheck(&cs, (n+int(c.Seed))%every == 0, rand.New(rand.NewSource(c.Seed*1000003+int64(n)))) //nolint:gosec
	})
}

func farArchive(cs *farCase, rng *rand.Rand) *sz.Archive {
	a := &sz.Archive{PackPos: cs.Pos.value(), Long: []int{0, 0, 1, 8}[rng.Intn(4)], AllSizes: rng.Intn(2) == 0}

	for i, f := range cs.Files {
		if f.Nth == 1 {
			a.Folders = append(a.Folders, sz.Folder{Coders: []sz.Coder{{ID: sz.Copy}}, Packed: []uint64{0}, Lens: []uint64{0}})
		}

		s := &a.Folders[len(a.Folders)-1]
		s.Coders[0].Size += f.Size.value()
		s.Lens[0] += f.Size.value()
		s.Subs = append(s.Subs, sz.Sub{Size: f.Size.value()})
		a.Files = append(a.Files, sz.File{Name: fmt.Sprint("f", i)})
	}

	if len(a.Folders) == len(cs.Files) {
		a.NoSubStreams = rng.Intn(2) == 0
	}

	return a
}

//nolint:cyclop,funlen,gocognit
func farCheck(cs *farCase, deep bool, rng *rand.Rand) error {
	a := farArchive(cs, rng)
	st := &farStore{end: int64(cs.End.value()), header: a.PlainHeader()} //nolint:gosec
	if rng.Intn(2) == 0 {
		st.prefix = 1 + rng.Int63n(5000)
	}

	if rng.Intn(3) == 0 {
		// The header is found by way of another one.
		var b sz.Buf

		b.Long = a.Long
		b.B(sz.IDEncodedHeader)
		f := sz.Single(sz.Copy, nil, nil, len(st.header))
		f.Streams, f.Lens, f.CRC = nil, []uint64{uint64(len(st.header))}, sz.CRC(st.header)
		sz.WriteStreams(&b, &sz.Archive{}, []sz.Folder{f}, cs.End.value(), false)

		inner := len(st.header)
		st.header = append(st.header, b.Bytes()...)
		st.frame = sz.FrameRaw(nil, nil, cs.End.value()+uint64(inner), uint64(b.Len()), crc32.ChecksumIEEE(b.Bytes())) //nolint:gosec
	} else {
		st.frame = sz.FrameRaw(nil, nil, cs.End.value(), uint64(len(st.header)), crc32.ChecksumIEEE(st.header))
	}

	r, err := sevenzip.NewReader(st, st.Size())
	if err != nil {
		return fmt.Errorf("opening the archive: %w", err)
	}

	if len(r.File) != len(cs.Files) {
		return fmt.Errorf("%d entries instead of %d", len(r.File), len(cs.Files))
	}

	for i, want := range cs.Files {
		f := r.File[i]
		size := want.Size.value()

		if f.UncompressedSize != size || f.FileInfo().Size() != int64(size) { //nolint:gosec
			return fmt.Errorf("file %d has size %d (%d by its information) instead of %d", i, f.UncompressedSize, f.FileInfo().Size(), size)
		}

		if f.Stream != want.Stream-1 {
			return fmt.Errorf("file %d is in stream %d instead of %d", i, f.Stream, want.Stream-1)
		}

		before := uint64(0)
		for j := i; cs.Files[j].Nth > 1; j-- {
			before += cs.Files[j-1].Size.value()
		}

		if before > 1<<20 && (!deep || before > 5<<30) {
			continue
		}

		whole := size < 1<<20 || deep && before+size < 5<<30
		if err := farRead(f, int64(want.Start.value()), size, whole); err != nil { //nolint:gosec
			return fmt.Errorf("file %d, which starts at %d: %w", i, want.Start.value(), err)
		}
	}

	return nil
}

// farRead reads a file whose data is at start, all of it or a bit.
func farRead(f *sevenzip.File, start int64, size uint64, whole bool) error {
	rc, err := f.Open()
	if err != nil {
		return fmt.Errorf("opening: %w", err)
	}
	defer rc.Close()

	var (
		done uint64
		buf  = make([]byte, 1<<16+7)
		exp  = make([]byte, len(buf))
	)

	for done < size {
		want := buf[:min(uint64(len(buf)), size-done)]

		if !whole && done > 0 {
			return nil
		}

		if n, err := io.ReadFull(rc, want); err != nil {
			return fmt.Errorf("reading at %d of %d: %d bytes, %w", done, size, n, err)
		}

		farFill(exp[:len(want)], start+int64(done)) //nolint:gosec

		if !bytes.Equal(want, exp[:len(want)]) {
			return fmt.Errorf("wrong content at %d of %d", done, size)
		}

		done += uint64(len(want))
	}

	if n, err := rc.Read(buf); n != 0 || !errors.Is(err, io.EOF) {
		return fmt.Errorf("at the end of %d bytes: %d, %w", size, n, err)
	}

	h.Env.Count("whole", 1)

	return nil
}

func init() { commands["farsplit"] = farSplitCmd }

func farSplitCmd(c *Ctx) {
	h.Cases(c.Args, func(n int, line []byte) error {
		var cs farCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		if cs.End.value() > 1<<35 {
			return nil
		}

		return farSplit(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n)))) //nolint:gosec
	})
}

// farSplit has the archive in volumes on disk, with holes in place of most of
// the data.
//
//nolint:cyclop,funlen,gocognit
func farSplit(cs *farCase, rng *rand.Rand) error {
	a := farArchive(cs, rng)
	st := &farStore{end: int64(cs.End.value()), header: a.PlainHeader()} //nolint:gosec
	st.frame = sz.FrameRaw(nil, nil, cs.End.value(), uint64(len(st.header)), crc32.ChecksumIEEE(st.header))

	const window = 300

	cuts := []int64{}

	for range 1 + rng.Intn(4) {
		f := cs.Files[rng.Intn(len(cs.Files))]
		cuts = append(cuts, []int64{
			32 + int64(f.Start.value()) + rng.Int63n(window) - 50, //nolint:gosec
			1<<32 + rng.Int63n(3) - 1,
			1<<31 + rng.Int63n(3) - 1,
			st.Size() - 1 - rng.Int63n(int64(len(st.header))),
			1 + rng.Int63n(st.Size()-1),
		}[rng.Intn(5)])
	}

	slices.Sort(cuts)

	dir, done := volumesDir()
	defer done()

	from := int64(0)
	base := filepath.Join(dir, "far.7z.")

	var names []string

	for _, to := range append(cuts, st.Size()) {
		if to <= from || to > st.Size() {
			continue
		}

		name := fmt.Sprintf("%s%03d", base, len(names)+1)
		names = append(names, name)

		f, err := os.Create(name)
		if err != nil {
			h.Die("%v", err)
		}

		part := func(lo, hi int64) {
			lo, hi = max(lo, from), min(hi, to)
			if lo >= hi {
				return
			}

			b := make([]byte, hi-lo)
			_, _ = st.ReadAt(b, lo)

			if _, err := f.WriteAt(b, lo-from); err != nil {
				h.Die("%v", err)
			}
		}

		if err := f.Truncate(to - from); err != nil {
			h.Die("%v", err)
		}

		part(0, 32+window)
		part(st.Size()-int64(len(st.header)), st.Size())

		for _, x := range cs.Files {
			s := 32 + int64(x.Start.value()) //nolint:gosec
			part(s, s+window)
		}

		if err := f.Close(); err != nil {
			h.Die("%v", err)
		}

		from = to
	}

	r, err := sevenzip.OpenReader(names[0])
	if err != nil {
		return fmt.Errorf("opening %d volumes cut at %v: %w", len(names), cuts, err)
	}

	if v := r.Volumes(); !slices.Equal(v, names) {
		return fmt.Errorf("the volumes are %q, not %q", v, names)
	}

	for i, x := range cs.Files {
		if x.Nth > 1 {
			continue
		}

		rc, err := r.File[i].Open()
		if err != nil {
			return fmt.Errorf("opening file %d, volumes cut at %v: %w", i, cuts, err)
		}

		n := min(window, x.Size.value())
		got, exp := make([]byte, n), make([]byte, n)
		farFill(exp, int64(x.Start.value())) //nolint:gosec

		if _, err := io.ReadFull(rc, got); err != nil {
			return fmt.Errorf("reading file %d, volumes cut at %v: %w", i, cuts, err)
		}

		if !bytes.Equal(got, exp) {
			return fmt.Errorf("file %d has the wrong content, volumes cut at %v", i, cuts)
		}

		if err := rc.Close(); err != nil {
			return fmt.Errorf("closing file %d: %w", i, err)
		}
	}

	if err := r.Close(); err != nil {
		return fmt.Errorf("closing: %w", err)
	}

	h.Env.Count("split", 1)

	return volumesHeld(dir)
}
