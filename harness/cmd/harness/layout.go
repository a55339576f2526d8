package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["layout"] = layoutCmd }

// Join coders return their inputs one after the other.
var joinID = []byte{0x7f, 0x76, 0x06}

type join struct {
	in []io.ReadCloser
	r  io.Reader
}

func init() {
	sevenzip.RegisterDecompressor(joinID, func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		var rs []io.Reader
		for _, r := range in {
			rs = append(rs, r)
		}

		return &join{append([]io.ReadCloser(nil), in...), io.MultiReader(rs...)}, nil
	})
}

func (j *join) Read(p []byte) (int, error) { return j.r.Read(p) } //nolint:wrapcheck

func (j *join) Close() error {
	var errs []error
	for _, r := range j.in {
		errs = append(errs, r.Close())
	}

	return errors.Join(errs...)
}

// joined builds a folder of packed streams, each decoded by the named step if
// there is a name, that are joined.
func joined(content []byte, steps []string, rng *rand.Rand) sz.Folder {
	n := len(steps)
	cuts := make([]int, n+1)
	cuts[n] = len(content)

	for i := 1; i < n; i++ {
		cuts[i] = len(content) * i / n
		if len(content) > 0 {
			cuts[i] = cuts[i-1] + rng.Intn(len(content)-cuts[i-1]+1)
		}
	}

	var (
		f      sz.Folder
		inputs []uint64 // the inputs fed by packed streams
		packs  [][]byte
	)

	m := 0 // coders before the join

	for _, s := range steps {
		if s != "" {
			m++
		}
	}

	k := 0

	for i, s := range steps {
		part := content[cuts[i]:cuts[i+1]]
		in := uint64(m + i) //nolint:gosec

		if s == "" {
			inputs = append(inputs, in)
			packs = append(packs, part)

			continue
		}

		props, packed := enc.Steps[s].Make(part)
		f.Coders = append(f.Coders, sz.Coder{ID: enc.Steps[s].ID, Props: props, Size: uint64(len(part))})
		f.Binds = append(f.Binds, sz.Bind{In: in, Out: uint64(k)}) //nolint:gosec
		inputs = append(inputs, uint64(k))                         //nolint:gosec
		packs = append(packs, packed)
		k++
	}

	f.Coders = append(f.Coders, sz.Coder{ID: joinID, In: uint64(n), Size: uint64(len(content))}) //nolint:gosec

	for _, i := range rng.Perm(n) {
		f.Packed = append(f.Packed, inputs[i])
		f.Streams = append(f.Streams, packs[i])
	}

	return f
}

type layoutCase struct {
	H struct {
		Streams []struct {
			Packed int
			CRC    bool
			Files  []struct {
				Size int
				CRC  bool
			}
		}
		Entries []string
		Form    string
	}
	List []struct {
		Stream, Nth, Off, Size int
		CRC                    string
	}
}

func layoutCmd(c *Ctx) {
	rounds := 1
	if !h.Env.Quick() {
		rounds = 12
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs layoutCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			return layoutCheck(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n*rounds+i)))) //nolint:gosec
		})
	}
}

var (
	layoutChains = []string{"copy", "copy", "deflate", "lzma2", "lzma", "lzma2+bcj", "aes+copy", "delta4", "bcj", "aes+lzma2",
		"lz4", "zstd", "brotli", "bzip2", "deflate+arm", "bcj2", "bcj2lz", "ppc", "sparc+copy"}
	layoutHeaders = []string{"", "", "copy", "lzma", "lzma2", "aes+lzma", "deflate+delta4", "aes", "bcj2lz"}
)

//nolint:cyclop,funlen,gocognit,gocyclo,maintidx
func layoutCheck(cs *layoutCase, rng *rand.Rand) error {
	// Once in a while the whole is repeated many times over, so that counts
	// take more than a byte.
	times := 1
	if rng.Intn(25) == 0 {
		times = []int{2, 20, 70, 200}[rng.Intn(4)]
	}

	a := sz.Archive{
		NoSubStreams: cs.H.Form == "none",
		AllCounts:    cs.H.Form == "full",
		AllSizes:     cs.H.Form == "full",
		AttrAllSlow:  rng.Intn(2) == 0,
		Long:         []int{0, 0, 0, 1, 2, 4, 8}[rng.Intn(7)],
		PackCRC:      rng.Intn(2) == 0,
		PackPos:      uint64([]int{0, 0, 1, 1000}[rng.Intn(4)]), //nolint:gosec
	}

	if rng.Intn(2) == 0 {
		a.PackHoles = uint(rng.Uint32())
	}

	if rng.Intn(3) == 0 {
		a.Dummy = 1 + rng.Intn(200)
	}

	unit := []int{0, 1 + rng.Intn(300), 1 + rng.Intn(5000)}

	var (
		contents [][]byte
		what     []string
	)

	for t := 0; t < times; t++ {
		for i, s := range cs.H.Streams {
			size := 0
			for _, f := range s.Files {
				size += unit[f.Size]
			}

			if len(s.Files) == 0 {
				size = rng.Intn(300)
			}

			content := pattern(size, t*len(cs.H.Streams)+i+1)

			var f sz.Folder

			name := "copy"

			switch {
			case times > 2:
				f = enc.Chain(name, content)
			case s.Packed == 1:
				name = layoutChains[rng.Intn(len(layoutChains))]
				f = enc.Chain(name, content)
			default:
				steps := make([]string, s.Packed)
				for j := range steps {
					steps[j] = []string{"", "", "copy", "deflate", "lzma", "delta4"}[rng.Intn(6)]
				}

				name = "join(" + strings.Join(steps, ",") + ")"
				f = joined(content, steps, rng)
			}

			what = append(what, name)

			if s.CRC {
				f.CRC = sz.CRC(content)
			}

			off := 0

			for _, x := range s.Files {
				b := content[off : off+unit[x.Size]]
				sub := sz.Sub{Size: uint64(len(b))}

				if x.CRC {
					sub.CRC = sz.CRC(b)
				}

				f.Subs = append(f.Subs, sub)
				off += len(b)
			}

			a.Folders = append(a.Folders, f)
			contents = append(contents, content)
		}

		for i, e := range cs.H.Entries {
			a.Files = append(a.Files, sz.File{
				Name:  fmt.Sprintf("d%d/%s%d", t, e, i),
				Empty: e != "data", EmptyFile: e == "file",
			})
		}
	}

	header := layoutHeaders[rng.Intn(len(layoutHeaders))]
	if header != "" {
		crc := rng.Intn(3) > 0
		a.EncodeHeader = func(hd []byte) sz.Folder {
			f := enc.Chain(header, hd)
			if crc {
				f.CRC = sz.CRC(hd)
			}

			return f
		}
	}

	data := a.Bytes()
	where := fmt.Sprintf("streams %v, repeated %d times, header %q, numbers +%d, position %d", what, times, header, a.Long, a.PackPos)

	if len(where) > 1000 {
		where = where[:1000]
	}

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), enc.Password)
	if err != nil {
		return fmt.Errorf("opening the archive (%s): %w", where, err)
	}

	if len(r.File) != len(a.Files) {
		return fmt.Errorf("%d entries instead of %d (%s)", len(r.File), len(a.Files), where)
	}

	expect := make([][]byte, len(a.Files))
	per := len(cs.H.Entries)

	for i, f := range r.File {
		l := cs.List[i%per]
		e := cs.H.Entries[i%per]
		bad := func(what string, got, want any) error {
			return fmt.Errorf("entry %d has %s %v instead of %v (%s)", i, what, got, want, where)
		}

		name := a.Files[i].Name
		if e == "dir" {
			name += "/"
		}

		if f.Name != name {
			return bad("name", f.Name, name)
		}

		if f.FileInfo().IsDir() != (e == "dir") {
			return bad("directory", f.FileInfo().IsDir(), e == "dir")
		}

		if e == "data" {
			stream := i/per*len(cs.H.Streams) + l.Stream - 1

			// The offset in units of the model does not have to be one in
			// bytes, the files before it do.
			off := 0
			for _, x := range cs.H.Streams[l.Stream-1].Files[:l.Nth-1] {
				off += unit[x.Size]
			}

			if f.Stream != stream {
				return bad("stream", f.Stream, stream)
			}

			expect[i] = contents[stream][off : off+unit[l.Size]]
		}

		if f.UncompressedSize != uint64(len(expect[i])) {
			return bad("size", f.UncompressedSize, len(expect[i]))
		}

		if n := f.FileInfo().Size(); n != int64(len(expect[i])) {
			return bad("size by its information", n, len(expect[i]))
		}

		crc := uint32(0)
		if l.CRC != "none" {
			crc = crc32.ChecksumIEEE(expect[i])
		}

		if f.CRC32 != crc {
			return bad("checksum", f.CRC32, crc)
		}
	}

	orders := [][]int{make([]int, len(r.File)), rng.Perm(len(r.File))}
	for i := range orders[0] {
		orders[0][i] = i
	}

	for n, order := range orders {
		if n == 1 && len(order) > 60 {
			order = order[:60]
		}

		for _, i := range order {
			if r.File[i].FileInfo().IsDir() {
				continue
			}

			b, err := graphRead(r.File[i])
			if err != nil {
				return fmt.Errorf("reading entry %d (%s): %w", i, where, err)
			}

			if !bytes.Equal(b, expect[i]) {
				return fmt.Errorf("entry %d has the wrong content: %d bytes, %d expected (%s)", i, len(b), len(expect[i]), where)
			}
		}
	}

	return nil
}
