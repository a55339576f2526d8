package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/bits"
	"math/rand"
	"slices"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["integrity"] = integrityCmd }

type integrityCase struct {
	A struct {
		Enc, Extra           string
		Digest, Gap, Trailer bool
	}
	Damaged, Signed []string
	Verdict         string
}

func integrityCmd(c *Ctx) {
	rounds := 1
	if !h.Env.Quick() {
		rounds = 40
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs integrityCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			return integrityCheck(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n*rounds+i)))) //nolint:gosec
		})
	}
}

type integrityArchive struct {
	data    []byte
	regions map[string][2]int
	list    string
	what    string
	// contents of the files, in order
	contents [][]byte
}

// read compares all contents.
func (ia *integrityArchive) read(r *sevenzip.Reader) error {
	n := 0

	for _, f := range r.File {
		if f.FileInfo().IsDir() {
			continue
		}

		b, err := graphRead(f)
		if err != nil {
			return fmt.Errorf("reading %q: %w", f.Name, err)
		}

		var want []byte
		if n < len(ia.contents) {
			want = ia.contents[n]
		}

		n++

		if !bytes.Equal(b, want) {
			return fmt.Errorf("%q has the wrong content: %d bytes, %d expected", f.Name, len(b), len(want))
		}
	}

	return nil
}

func listing(r *sevenzip.Reader) string {
	var b bytes.Buffer
	for _, f := range r.File {
		fmt.Fprintf(&b, "%q %d %d %08x %v %v %v %x\n", f.Name, f.Stream, f.UncompressedSize, f.CRC32, f.Created, f.Accessed, f.Modified, f.Attributes)
	}

	return b.String()
}

//nolint:cyclop,funlen,gocognit
func integrityBuild(cs *integrityCase, rng *rand.Rand) *integrityArchive {
	var (
		a        sz.Archive
		contents [][]byte
	)

	for i := 0; i < 1+rng.Intn(3); i++ {
		name := []string{"copy", "lzma2", "deflate"}[rng.Intn(3)]
		content := pattern(1+rng.Intn(200), i)
		contents = append(contents, content)
		f := enc.Chain(name, content)
		f.Subs = []sz.Sub{{Size: uint64(len(content)), CRC: sz.CRC(content)}}
		a.Folders = append(a.Folders, f)
		a.Files = append(a.Files, sz.File{
			Name: metaName(rng), MTime: sz.U64(132_000_000_000_000_000 + uint64(rng.Uint32())), Attr: sz.U32(0x20),
		})
	}

	a.Files = append(a.Files, sz.File{Name: "dir", Empty: true}, sz.File{Name: "empty", Empty: true, EmptyFile: true})
	if rng.Intn(20) == 0 {
		// A header larger than the buffer it is read with.
		for i := 0; i < 400; i++ {
			a.Files = append(a.Files, sz.File{Name: fmt.Sprint("entry", i), Empty: true, EmptyFile: true})
		}
	}

	if cs.A.Gap {
		a.Gap = 1 + rng.Intn(60)
	}

	chain := "copy"
	if cs.A.Enc == "packed" {
		chain = []string{"lzma", "lzma2", "deflate", "aes+lzma2", "aes", "bzip2", "aes+deflate+delta4", "bcj2lz"}[rng.Intn(8)]
	}

	header, streams := a.Header()
	packed := 0

	if cs.A.Enc != "plain" {
		a.EncodeHeader = func(hd []byte) sz.Folder {
			signed := hd

			if cs.A.Extra == "decoded" {
				hd = append(slices.Clone(hd), make([]byte, 1+rng.Intn(20))...)
				if rng.Intn(2) == 0 {
					signed = hd
				}
			}

			f := enc.Chain(chain, hd)

			if cs.A.Digest {
				f.CRC = sz.CRC(signed)
			}

			if cs.A.Extra == "digest" {
				*f.CRC = []uint32{0, ^*f.CRC, 0xffffffff, bits.ReverseBytes32(*f.CRC), *f.CRC ^ 1<<uint(rng.Intn(32))}[rng.Intn(5)]
			}

			for _, s := range f.Streams {
				packed += len(s)
			}

			return f
		}
	}

	if cs.A.Extra == "header" {
		a.HeaderTrailer = make([]byte, 1+rng.Intn(20))
		if rng.Intn(2) == 0 {
			a.HeaderTrailer = header
		}
	}

	data := a.Bytes()

	at := 32
	regions := map[string][2]int{
		"signature": {0, 6}, "version": {6, 8}, "startcrc": {8, 12}, "offset": {12, 20}, "size": {20, 28}, "headercrc": {28, 32},
	}
	add := func(name string, n int) {
		regions[name] = [2]int{at, at + n}
		at += n
	}

	add("data", len(streams))
	add("gap", a.Gap)
	add("packed", packed)
	add("header", len(data)-at)

	if cs.A.Trailer {
		t := pattern(1+rng.Intn(100), 99)
		if !slices.Contains(cs.Damaged, "signature") {
			switch rng.Intn(4) {
			case 0:
				t = slices.Clone(data)
			case 1:
				t = slices.Clone(data[:6])
			case 2:
				t = make([]byte, 1+rng.Intn(5000))
			}
		}

		add("trailer", len(t))
		data = append(data, t...)
	}

	ia := &integrityArchive{data: data, regions: regions, what: fmt.Sprintf("header encoded with %q, %d bytes", chain, len(data))}

	// What it lists is known from what was written.
	var b bytes.Buffer

	for i, f := range a.Files {
		name, size, stream, crc := f.Name, 0, 0, uint32(0)
		if f.Empty && !f.EmptyFile {
			name += "/"
		}

		var m any = metaInstant(0).AddDate(-1600, 0, 0) // the zero time

		attr := uint32(0)
		if !f.Empty {
			size, stream, crc = int(a.Folders[i].Subs[0].Size), i, *a.Folders[i].Subs[0].CRC //nolint:gosec
			m = metaInstant(*f.MTime)
			attr = 0x20
		}

		zero := metaInstant(0).AddDate(-1600, 0, 0)
		fmt.Fprintf(&b, "%q %d %d %08x %v %v %v %x\n", name, stream, size, crc, zero, zero, m, attr)
	}

	ia.list = b.String()
	ia.contents = contents

	return ia
}

// try damages regions by the given masks and opens the result.
func (ia *integrityArchive) try(cs *integrityCase, damage map[int]byte) error {
	data := ia.data

	if len(damage) > 0 || len(cs.Signed) > 0 {
		data = slices.Clone(data)
	}

	for i, x := range damage {
		data[i] ^= x
	}

	if slices.Contains(cs.Signed, "header") {
		off := int64(32) + int64(binary.LittleEndian.Uint64(data[12:])) //nolint:gosec
		size := int64(binary.LittleEndian.Uint64(data[20:]))            //nolint:gosec

		if off >= 32 && size > 0 && off <= int64(len(data)) && size <= int64(len(data))-off {
			binary.LittleEndian.PutUint32(data[28:], crc32.ChecksumIEEE(data[off:off+size]))
		} else {
			data[28] ^= 0x55 // there is nothing to sign
		}
	}

	if slices.Contains(cs.Signed, "start") {
		binary.LittleEndian.PutUint32(data[8:], crc32.ChecksumIEEE(data[12:32]))
	}

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), enc.Password)

	h.Env.Count("opens", 1)

	switch {
	case cs.Verdict == "any":
	case err != nil && cs.Verdict == "same":
		return fmt.Errorf("opening failed: %w (%v changed, %s)", err, damage, ia.what)
	case err == nil && cs.Verdict == "reject":
		return fmt.Errorf("opening succeeded with %v changed (%s)", damage, ia.what)
	case err == nil && listing(r) != ia.list:
		return fmt.Errorf("the listing is\n%sinstead of\n%swith %v changed (%s)", listing(r), ia.list, damage, ia.what)
	}

	return nil
}

//nolint:cyclop
func integrityCheck(cs *integrityCase, rng *rand.Rand) error {
	ia := integrityBuild(cs, rng)

	for _, r := range cs.Damaged {
		if g := ia.regions[r]; g[0] == g[1] {
			h.Die("no bytes in %s", r)
		}
	}

	switch len(cs.Damaged) {
	case 0:
		return ia.try(cs, nil)
	case 1:
		g := ia.regions[cs.Damaged[0]]
		step := 1

		// Every bit of every byte; of long regions only at both ends and here
		// and there.
		for i := g[0]; i < g[1]; i += step {
			if n := i - g[0]; n > 120 && g[1]-i > 120 {
				step = 1 + rng.Intn(60)
			} else {
				step = 1
			}

			for bit := 0; bit < 8; bit++ {
				if err := ia.try(cs, map[int]byte{i: 1 << bit}); err != nil {
					return err
				}
			}

			d := map[int]byte{}

			// A burst of up to 32 bits.
			for j := i; j < min(g[1], i+1+rng.Intn(4)); j++ {
				d[j] = byte(1 + rng.Intn(255))
			}

			if err := ia.try(cs, d); err != nil {
				return err
			}
		}

		// All of a field is wiped.
		if g[1]-g[0] <= 8 {
			for _, v := range []byte{0, 0xff} {
				d, same := map[int]byte{}, true

				for j := g[0]; j < g[1]; j++ {
					d[j] = ia.data[j] ^ v
					same = same && d[j] == 0
				}

				if same {
					continue
				}

				if err := ia.try(cs, d); err != nil {
					return err
				}
			}
		}

		return nil
	}

	for i := 0; i < 12; i++ {
		d := map[int]byte{}

		for _, r := range cs.Damaged {
			g := ia.regions[r]
			d[g[0]+rng.Intn(g[1]-g[0])] = byte(1 + rng.Intn(255))
		}

		if err := ia.try(cs, d); err != nil {
			return err
		}
	}

	return nil
}
