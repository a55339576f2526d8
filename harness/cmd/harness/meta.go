package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"math/rand"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["meta"] = metaCmd
	commands["modes"] = modesCmd
}

type metaVector struct {
	All  bool
	Bits []bool
}

type metaCase struct {
	C struct {
		N      int
		Es, Ef []bool
		Def    map[string]metaVector
		Order  []string
	}
	Out []struct {
		Data, File                      bool
		Name, Ctime, Atime, Mtime, Attr int
	}
}

func metaCmd(c *Ctx) {
	rounds := 1
	if !h.Env.Quick() {
		rounds = 15
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs metaCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			return metaCheck(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n*rounds+i)))) //nolint:gosec
		})
	}
}

// Instants of a file time's range: its ends, second and 32 bit boundaries, the
// epochs, and where nanoseconds since 1970 leave 64 bits.
var metaTimes = []uint64{
	0, 1, 9, 10, 9_999_999, 10_000_000, 10_000_001,
	1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64,
	116_444_736_000_000_000, 116_444_736_000_000_000 - 1, 116_444_736_000_000_000 + 1,
	116_444_736_000_000_000 - math.MaxInt64/100 - 1, 116_444_736_000_000_000 - math.MaxInt64/100,
	116_444_736_000_000_000 + math.MaxInt64/100, 116_444_736_000_000_000 + math.MaxInt64/100 + 1,
	132_000_000_000_000_000, 132_000_000_012_345_678,
	116_444_736_000_000_000 + (1<<31)*10_000_000, 116_444_736_000_000_000 + (1<<32)*10_000_000,
}

func metaTime(rng *rand.Rand) uint64 {
	if rng.Intn(3) == 0 {
		return rng.Uint64()
	}

	return metaTimes[rng.Intn(len(metaTimes))]
}

// The instant of a file time, by the calendar.
func metaInstant(t uint64) time.Time {
	const day = 86400 * 10_000_000

	rest := t % day

	return time.Date(1601, 1, 1+int(t/day), 0, 0, int(rest/10_000_000), int(rest%10_000_000)*100, time.UTC) //nolint:gosec
}

var metaRunes = []rune{
	1, 9, 0xa, 0xd, 0x1b, ' ', '.', '-', '"', '*', ':', 'a', 'Z', 0x7f, 0x80, 0xff, 0x100, 0x200, 0xa00, 0xd00, 0x2f00, 0x5c00,
	0x301, 0x4e00, 0x7fff, 0xd7ff, 0xe000, 0xf8ff, 0xfb01, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600,
	0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x10d00, 0x12f00,
}

func metaName(rng *rand.Rand) string {
	var b strings.Builder

	n := 1 + rng.Intn(12)

	switch rng.Intn(40) {
	case 0:
		n = 300 + rng.Intn(4000)
	case 1:
		n = 0
	}

	one := rng.Intn(3) == 0
	r := metaRunes[rng.Intn(len(metaRunes))]

	for i := 0; i < n; i++ {
		if !one {
			switch rng.Intn(4) {
			case 0:
				r = metaRunes[rng.Intn(len(metaRunes))]
			case 1:
				r = rune('a' + rng.Intn(26)) //nolint:gosec
			default:
				for r = 0; r == 0 || r >= 0xd800 && r < 0xe000 || !utf8.ValidRune(r); {
					r = rune(rng.Intn(0x110000 >> uint(rng.Intn(3)*4))) //nolint:gosec
				}
			}
		}

		if r == '/' {
			r = '_'
		}

		b.WriteRune(r)
	}

	return b.String()
}

//nolint:cyclop,funlen,gocognit,gocyclo
func metaCheck(cs *metaCase, rng *rand.Rand) error {
	times := 1
	if rng.Intn(12) == 0 {
		times = []int{2, 3, 8, 43, 700}[rng.Intn(5)]
	}

	n := cs.C.N * times
	names := make([]string, n)

	for i := range names {
		names[i] = metaName(rng)
		if times > 100 {
			names[i] = fmt.Sprint("n", i)
		}
	}

	if rng.Intn(400) == 0 {
		names[rng.Intn(n)] = strings.Repeat(string(metaRunes[rng.Intn(len(metaRunes))]), 30000)
	}

	value := map[string][]uint64{}

	for p := range cs.C.Def {
		v := make([]uint64, n)
		for i := range v {
			v[i] = metaTime(rng)

			if p == "attr" {
				v[i] = []uint64{0, 1, 0xff, 0x100, 0x20, 0x8000, 0x80000000, 0xffffffff, uint64(rng.Uint32())}[rng.Intn(9)]
			}
		}

		value[p] = v
	}

	a := sz.Archive{Long: []int{0, 0, 1, 3, 8}[rng.Intn(5)]}

	rep := func(b []bool) []bool {
		var r []bool
		for i := 0; i < times; i++ {
			r = append(r, b...)
		}

		return r
	}

	dummy := func(b *sz.Buf) {
		if rng.Intn(4) == 0 {
			sz.Prop(b, sz.IDDummy, func(p *sz.Buf) { p.Write(bytes.Repeat([]byte{byte(rng.Intn(2) * 0x11)}, rng.Intn(300))) })
		}
	}

	data := 0

	for _, o := range cs.Out {
		if o.Data {
			data++
		}
	}

	for i := 0; i < data*times; i++ {
		f := sz.Single(sz.Copy, nil, []byte{byte(i)}, 1)
		f.Subs = []sz.Sub{{Size: 1}}
		a.Folders = append(a.Folders, f)
	}

	a.NoSubStreams = rng.Intn(2) == 0
	a.FilesInfo = func(b *sz.Buf) {
		b.N(uint64(n)) //nolint:gosec

		for _, p := range cs.C.Order {
			dummy(b)

			switch p {
			case "empty":
				sz.Prop(b, sz.IDEmptyStream, func(w *sz.Buf) { w.Bits(rep(cs.C.Es)) })
			case "emptyfile":
				sz.Prop(b, sz.IDEmptyFile, func(w *sz.Buf) { w.Bits(rep(cs.C.Ef)) })
			case "name":
				sz.Prop(b, sz.IDName, func(w *sz.Buf) {
					w.B(0)

					for _, s := range names {
						w.Write(sz.UTF16(s))
					}
				})
			default:
				id := map[string]byte{"ctime": sz.IDCTime, "atime": sz.IDATime, "mtime": sz.IDMTime, "attr": sz.IDAttr}[p]
				d := cs.C.Def[p]
				bits := rep(d.Bits)

				sz.Prop(b, id, func(w *sz.Buf) {
					if d.All {
						w.B(1)
					} else {
						w.B(0)
						w.Bits(bits)
					}

					w.B(0)

					for i, x := range bits {
						switch {
						case !x:
						case p == "attr":
							w.U4(uint32(value[p][i])) //nolint:gosec
						default:
							w.U8(value[p][i])
						}
					}
				})
			}
		}

		dummy(b)
		b.B(sz.IDEnd)
	}

	if rng.Intn(4) == 0 {
		a.EncodeHeader = func(hd []byte) sz.Folder {
			return enc.Chain([]string{"copy", "lzma", "lzma2", "deflate"}[rng.Intn(4)], hd)
		}
	}

	raw := a.Bytes()

	r, err := sevenzip.NewReader(bytes.NewReader(raw), int64(len(raw)))
	if err != nil {
		return fmt.Errorf("opening the archive (%d entries): %w", n, err)
	}

	if len(r.File) != n {
		return fmt.Errorf("%d entries instead of %d", len(r.File), n)
	}

	for i, f := range r.File {
		o := cs.Out[i%cs.C.N]

		bad := func(what string, got, want any) error {
			return fmt.Errorf("entry %d of %d has %s %.200q instead of %.200q", i, n, what, fmt.Sprint(got), fmt.Sprint(want))
		}

		tm := func(what string, got time.Time, tok int, p string) error {
			var want time.Time
			if tok > 0 {
				want = metaInstant(value[p][i])
			}

			if !got.Equal(want) || got.IsZero() != want.IsZero() {
				return bad(what, got, want)
			}

			return nil
		}

		if err := tm("creation time", f.Created, o.Ctime, "ctime"); err != nil {
			return err
		}

		if err := tm("access time", f.Accessed, o.Atime, "atime"); err != nil {
			return err
		}

		if err := tm("modification time", f.Modified, o.Mtime, "mtime"); err != nil {
			return err
		}

		if err := tm("modification time by its information", f.FileInfo().ModTime(), o.Mtime, "mtime"); err != nil {
			return err
		}

		attr := uint32(0)
		if o.Attr > 0 {
			attr = uint32(value["attr"][i]) //nolint:gosec
		}

		if f.Attributes != attr {
			return bad("attributes", f.Attributes, attr)
		}

		name := ""
		if o.Name > 0 {
			name = names[i]
		}

		// A slash tells directories.
		dir := f.FileInfo().IsDir()
		if dir && !strings.HasSuffix(name, "/") {
			name += "/"
		}

		if f.Name != name {
			return bad("name", f.Name, name)
		}

		if !o.Data && !o.File && attr>>28 == 0 && !dir {
			return bad("directory", dir, true)
		}

		if attr == 0 && dir != (!o.Data && !o.File) {
			return bad("directory", dir, !dir)
		}
	}

	return nil
}

type modeCase struct {
	A struct {
		Type, Kind                           string
		Suid, Sgid, Sticky, Dosdir, Readonly bool
		Perm, Dos                            uint32
	}
	Mode struct {
		Type               string
		Suid, Sgid, Sticky bool
		Perm               uint32
	}
}

func modesCmd(c *Ctx) {
	var cases []*modeCase

	for _, p := range c.Args {
		h.Lines(p, func(b []byte) {
			cs := new(modeCase)
			if err := json.Unmarshal(b, cs); err != nil {
				h.Die("%v", err)
			}

			cases = append(cases, cs)
		})
	}

	// All of them are the entries of one archive, and of ones of a few.
	check := func(cases []*modeCase) {
		if err := modesCheck(cases); err != nil {
			h.Env.Fail("modes", err.Error(), cases[:min(len(cases), 50)])
		}
	}

	check(cases)

	for i := 0; i < len(cases) && !h.Env.Any(); i += 7 {
		check(cases[i:min(i+7, len(cases))])
	}

	h.Env.Count("cases", len(cases))
}

var (
	posixTypes = map[string]uint32{
		"none": 0, "fifo": 1, "char": 2, "dir": 4, "block": 6, "regular": 8, "link": 10, "socket": 12,
	}
	modeTypes = map[string]fs.FileMode{
		"fifo": fs.ModeNamedPipe, "char": fs.ModeDevice | fs.ModeCharDevice, "dir": fs.ModeDir, "block": fs.ModeDevice,
		"regular": 0, "link": fs.ModeSymlink, "socket": fs.ModeSocket,
	}
)

//nolint:cyclop
func modesCheck(cases []*modeCase) error {
	var a sz.Archive

	bit := func(b bool, n uint) uint32 {
		if b {
			return 1 << n
		}

		return 0
	}

	for i, cs := range cases {
		attr := posixTypes[cs.A.Type]<<28 | bit(cs.A.Suid, 27) | bit(cs.A.Sgid, 26) | bit(cs.A.Sticky, 25) | cs.A.Perm<<16 |
			cs.A.Dos | bit(cs.A.Dosdir, 4) | bit(cs.A.Readonly, 0)

		a.Files = append(a.Files, sz.File{
			Name: fmt.Sprint("f", i), Empty: cs.A.Kind != "data", EmptyFile: cs.A.Kind == "empty", Attr: sz.U32(attr),
		})

		if cs.A.Kind == "data" {
			f := sz.Single(sz.Copy, nil, []byte{1}, 1)
			f.Subs = []sz.Sub{{Size: 1}}
			a.Folders = append(a.Folders, f)
		}
	}

	raw := a.Bytes()

	r, err := sevenzip.NewReader(bytes.NewReader(raw), int64(len(raw)))
	if err != nil {
		return fmt.Errorf("opening the archive: %w", err)
	}

	for i, cs := range cases {
		want := modeTypes[cs.Mode.Type] | fs.FileMode(cs.Mode.Perm)

		if cs.Mode.Suid {
			want |= fs.ModeSetuid
		}

		if cs.Mode.Sgid {
			want |= fs.ModeSetgid
		}

		if cs.Mode.Sticky {
			want |= fs.ModeSticky
		}

		f := r.File[i]
		info := f.FileInfo()

		for _, got := range []fs.FileMode{f.Mode(), info.Mode()} {
			if got != want {
				return fmt.Errorf("mode %v instead of %v for attributes %#x with %s", got, want, f.Attributes, cs.A.Kind)
			}
		}

		if info.IsDir() != want.IsDir() || strings.HasSuffix(f.Name, "/") != want.IsDir() {
			return fmt.Errorf("directory: %v for mode %v", info.IsDir(), want)
		}

		if de, ok := info.(fs.DirEntry); !ok || de.Type() != want.Type() {
			return fmt.Errorf("the type is not that of mode %v", want)
		}
	}

	return nil
}
