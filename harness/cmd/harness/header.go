package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"runtime"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["header"] = headerCmd }

type headerCase struct {
	Shape   string
	Tokens  [][]json.RawMessage
	Left    int
	Verdict string
}

var headerBig = map[int]uint64{
	900001: 1000000, 900002: 1 << 31, 900003: 1<<32 - 1, 900004: 1 << 32, 900005: 1<<63 - 1,
	900006: 1 << 63, 900007: 1<<64 - 1,
}

var headerIDs = map[string][]byte{"copy": sz.Copy, "delta": sz.Delta, "bcj2": sz.BCJ2, "two": sz.Copy}

// headerBytes writes the elements, cuts are where they end.
func headerBytes(cs *headerCase, long int) (out []byte, cuts []int) {
	b := sz.Buf{Long: long}

	flag := -1

	for _, t := range cs.Tokens {
		var (
			k string
			n int
		)

		if err := json.Unmarshal(t[0], &k); err != nil {
			h.Die("%v", err)
		}

		if k != "bits" {
			if err := json.Unmarshal(t[1], &n); err != nil {
				h.Die("%v", err)
			}
		}

		if flag >= 0 && !strings.HasPrefix(k, "id:") {
			h.Die("no id behind the flags")
		}

		switch k {
		case "b":
			b.B(byte(n))
		case "n":
			v := uint64(n)
			if big, ok := headerBig[n]; ok {
				v = big
			}

			b.N(v)
		case "flag":
			flag = n

			continue
		case "bits":
			var v []bool
			if err := json.Unmarshal(t[1], &v); err != nil {
				h.Die("%v", err)
			}

			b.Bits(v)
		case "crc":
			for i := 0; i < n; i++ {
				if cs.Shape == "encoded" {
					b.U4(crc32.ChecksumIEEE(headerSmall))
				} else {
					b.U4(uint32(0x11223344 * (i + 1))) //nolint:gosec
				}
			}
		case "time":
			for i := 0; i < n; i++ {
				b.U8(132_000_000_000_000_000 + uint64(i))
			}
		case "attr":
			for i := 0; i < n; i++ {
				b.U4(uint32(0x20 + i)) //nolint:gosec
			}
		case "zero", "props", "idbytes":
			b.Write(make([]byte, n))
		case "name":
			for i := 0; i < n; i++ {
				b.Write(sz.UTF16(string([]rune{rune('a' + i), 'x'})))
			}
		default:
			id, ok := headerIDs[strings.TrimPrefix(k, "id:")]
			if !ok {
				h.Die("unknown element %q", k)
			}

			// None, one or two bytes in the place of one.
			b.B(byte(flag | len(id)))
			flag = -1

			switch n {
			case 1:
				b.Write(id)
			case 2:
				b.Write(append(append([]byte(nil), id...), 0))
			}
		}

		cuts = append(cuts, b.Len())
	}

	return b.Bytes(), cuts
}

// headerSmall is a header of eight bytes.
var headerSmall = []byte{sz.IDHeader, sz.IDFilesInfo, 1, sz.IDEmptyStream, 1, 0x80, sz.IDEnd, sz.IDEnd}

// headerAllowed is what reading a header may allocate.
func headerAllowed(n int) uint64 { return 256<<10 + 8192*uint64(n) } //nolint:gosec

// headerTry opens an archive and reads everything in it, and returns whether
// it could be opened.
func headerTry(data []byte, headers int) (bool, error) {
	var before, after runtime.MemStats

	runtime.ReadMemStats(&before)

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), enc.Password)

	runtime.ReadMemStats(&after)

	if n := after.TotalAlloc - before.TotalAlloc; n > headerAllowed(headers) {
		return false, fmt.Errorf("%d bytes are allocated for a header of %d", n, headers)
	}

	if err != nil {
		if r != nil {
			return false, errors.New("both a reader and an error")
		}

		return false, nil
	}

	return true, headerUse(r)
}

// headerUse does with an archive all there is to do.  Whatever the header says,
// a file that ends has given as many bytes as its size says.
func headerUse(r *sevenzip.Reader) error {
	files := r.File
	if len(files) > 200 {
		files = files[:200]
	}

	for round := 0; round < 2; round++ {
		for _, f := range files {
			rc, err := f.Open()
			if err != nil {
				continue
			}

			limit := int64(60000*round + 2)
			n, err := io.Copy(io.Discard, io.LimitReader(rc, limit))
			_ = rc.Close()

			if err == nil && n < limit && uint64(n) != f.UncompressedSize { //nolint:gosec
				return fmt.Errorf("a file of %d bytes ends after %d", f.UncompressedSize, n)
			}
		}
	}

	for _, f := range files {
		fi := f.FileInfo()
		_, _, _, _, _ = fi.Name(), fi.Size(), fi.Mode(), fi.IsDir(), fi.ModTime()

		if g, err := r.Open(strings.TrimSuffix(f.Name, "/")); err == nil {
			_, _ = g.Stat()
			_, _ = g.Read(make([]byte, 10))
			_ = g.Close()
		}
	}

	n := 0
	_ = fs.WalkDir(r, ".", func(_ string, d fs.DirEntry, err error) error {
		if n++; n > 500 {
			return fs.SkipAll
		}

		if err == nil {
			_, _ = d.Info()
		}

		return nil
	})

	return nil
}

func headerCmd(c *Ctx) {
	shard, shards := 0, 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		if _, err := fmt.Sscanf(s, "%d/%d", &shard, &shards); err != nil {
			h.Die("%v", err)
		}
	}

	var lines [][]byte

	n := 0

	for _, p := range c.Args {
		h.Lines(p, func(b []byte) {
			if n++; n%shards == shard {
				lines = append(lines, append([]byte(nil), b...))
			}
		})
	}

	show := os.Getenv("VERIF_SHOW") != ""

	for i, line := range lines {
		if h.Env.Failed() {
			break
		}

		var cs headerCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i*shards+shard))) //nolint:gosec

		var data []byte

		h.Progress(map[string]any{"case": json.RawMessage(line), "number": i*shards + shard, "seed": c.Seed})

		try := func(packed, header []byte, headers int) (ok bool) {
			data = sz.Frame(packed, header)

			var err error

			if e := h.Timed(func() { ok, err = headerTry(data, headers) }); e != nil {
				err = e
			}

			h.Env.Count("headers", 1)

			if err != nil {
				what := fmt.Sprintf("%v for the header %x", err, header)
				h.Env.Fail(string(line), what, map[string]any{"case": json.RawMessage(line), "archive": data})
			}

			return ok
		}

		packed := append(append([]byte(nil), headerSmall...), pattern(60, 1)...)
		hd, cuts := headerBytes(&cs, []int{0, 0, 0, 1, 7}[rng.Intn(5)])

		wrap := func(b []byte) ([]byte, []byte, int) {
			all := append(append([]byte(nil), packed...), b...)

			var e sz.Buf

			e.B(sz.IDEncodedHeader, sz.IDPackInfo)
			e.N(uint64(len(packed)))
			e.B(1, sz.IDSize)
			e.N(uint64(len(b)))
			e.B(sz.IDEnd, sz.IDUnpackInfo, sz.IDFolder, 1, 0, 1, 1, 0, sz.IDCodersUnpack)
			e.N(uint64(len(b)))
			e.B(sz.IDCRC, 1)
			e.U4(crc32.ChecksumIEEE(b))
			e.B(sz.IDEnd, sz.IDEnd)

			return all, e.Bytes(), len(b) + e.Len()
		}

		ok := try(packed, hd, len(hd))
		h.Env.Count(fmt.Sprintf("%s, %s", cs.Verdict, map[bool]string{true: "opened", false: "refused"}[ok]), 1)

		if show && (cs.Verdict == "accept") != ok && cs.Verdict != "any" {
			fmt.Printf("%v %s\n", ok, line)
		}

		if cs.Shape != "encoded" && len(hd) > 0 {
			a, b, n := wrap(hd)
			try(a, b, n)
		}

		// Everything is cut where nothing else is wrong.
		every := 30
		if !h.Env.Quick() {
			every = 4
		}

		if cs.Left > 0 || rng.Intn(every) == 0 {
			for k := range hd {
				try(packed, hd[:k], k)
			}
		}

		// Elements and bytes are changed beyond what the model does.
		m := append([]byte(nil), hd...)

		for k := 0; k < 2 && len(m) > 0; k++ {
			switch at := cuts[rng.Intn(len(cuts))]; rng.Intn(4) {
			case 0:
				m[rng.Intn(len(m))] = byte(rng.Intn(256))
			case 1:
				m[rng.Intn(len(m))] ^= 1 << uint(rng.Intn(8))
			case 2:
				at = min(at, len(m))
				m = append(m[:at:at], append(sz.NumLen(rng.Uint64(), rng.Intn(9)), m[at:]...)...)
			case 3:
				from, to := rng.Intn(len(m)), rng.Intn(len(m)+1)
				if from < to {
					at = min(at, len(m))
					m = append(m[:at:at], append(append([]byte(nil), m[from:to]...), m[at:]...)...)
				}
			}
		}

		try(packed, m, len(m))
	}

	if shard == 0 {
		headerFrames()
	}

	if shard == shards-1 {
		headerLarge()
	}
}

// headerLarge reads headers with many of one kind of element.
func headerLarge() {
	single := func(b *sz.Buf) { b.B(1, 1, 0) }
	packs := func(b *sz.Buf, n int) {
		b.B(sz.IDPackInfo, 0)
		b.N(uint64(n)) //nolint:gosec
		b.B(sz.IDSize)
		b.Write(bytes.Repeat([]byte{1}, n))
		b.B(sz.IDEnd)
	}

	kinds := map[string]func(b *sz.Buf, n int){
		"empty files": func(b *sz.Buf, n int) {
			b.B(sz.IDFilesInfo)
			b.N(uint64(n)) //nolint:gosec
			sz.Prop(b, sz.IDEmptyStream, func(p *sz.Buf) { p.Write(bytes.Repeat([]byte{0xff}, (n+7)/8)) })
			sz.Prop(b, sz.IDEmptyFile, func(p *sz.Buf) { p.Write(bytes.Repeat([]byte{0xff}, (n+7)/8)) })
			b.B(sz.IDEnd)
		},
		"names": func(b *sz.Buf, n int) {
			b.B(sz.IDFilesInfo)
			b.N(uint64(n)) //nolint:gosec
			sz.Prop(b, sz.IDEmptyStream, func(p *sz.Buf) { p.Write(bytes.Repeat([]byte{0xff}, (n+7)/8)) })
			sz.Prop(b, sz.IDName, func(p *sz.Buf) { p.B(0); p.Write(bytes.Repeat([]byte{'a', 0, 0, 0}, n)) })
			b.B(sz.IDEnd)
		},
		"one long name": func(b *sz.Buf, n int) {
			b.B(sz.IDFilesInfo, 1)
			sz.Prop(b, sz.IDEmptyStream, func(p *sz.Buf) { p.B(0x80) })
			sz.Prop(b, sz.IDName, func(p *sz.Buf) { p.B(0); p.Write(bytes.Repeat([]byte{'a', 0}, n)); p.B(0, 0) })
			b.B(sz.IDEnd)
		},
		"properties": func(b *sz.Buf, n int) {
			b.B(sz.IDFilesInfo, 1)

			for i := 0; i < n; i++ {
				sz.Prop(b, sz.IDEmptyStream, func(p *sz.Buf) { p.B(0x80) })
			}

			b.B(sz.IDEnd)
		},
		"folders": func(b *sz.Buf, n int) {
			b.B(sz.IDMainStreams)
			packs(b, n)
			b.B(sz.IDUnpackInfo, sz.IDFolder)
			b.N(uint64(n)) //nolint:gosec
			b.B(0)

			for i := 0; i < n; i++ {
				single(b)
			}

			b.B(sz.IDCodersUnpack)
			b.Write(bytes.Repeat([]byte{1}, n))
			b.B(sz.IDEnd, sz.IDEnd)
		},
		"coders": func(b *sz.Buf, n int) {
			n /= 8

			b.B(sz.IDMainStreams)
			packs(b, 1)
			b.B(sz.IDUnpackInfo, sz.IDFolder, 1, 0)
			b.N(uint64(n)) //nolint:gosec
			b.Write(bytes.Repeat([]byte{1, 0}, n))

			for i := 1; i < n; i++ {
				b.N(uint64(i))
				b.N(uint64(i - 1))
			}

			b.B(sz.IDCodersUnpack)
			b.Write(bytes.Repeat([]byte{1}, n))
			b.B(sz.IDEnd, sz.IDEnd, sz.IDFilesInfo, 1, sz.IDEnd)
		},
		"files of a folder": func(b *sz.Buf, n int) {
			b.B(sz.IDMainStreams)
			packs(b, 1)
			b.B(sz.IDUnpackInfo, sz.IDFolder, 1, 0)
			single(b)
			b.B(sz.IDCodersUnpack)
			b.N(uint64(n)) //nolint:gosec
			b.B(sz.IDEnd, sz.IDSubStreams, sz.IDNumUnpackStream)
			b.N(uint64(n)) //nolint:gosec
			b.B(sz.IDSize)
			b.Write(bytes.Repeat([]byte{0}, n-1))
			b.B(sz.IDCRC, 0)
			b.Write(make([]byte, (n+7)/8))
			b.B(sz.IDEnd, sz.IDEnd)
		},
		"inputs": func(b *sz.Buf, n int) {
			n /= 4

			b.B(sz.IDMainStreams)
			packs(b, n)
			b.B(sz.IDUnpackInfo, sz.IDFolder, 1, 0, 1, 0x11, 0)
			b.N(uint64(n)) //nolint:gosec
			b.B(1)

			for i := 0; i < n; i++ {
				b.N(uint64(i))
			}

			b.B(sz.IDCodersUnpack, 1, sz.IDEnd, sz.IDEnd, sz.IDFilesInfo, 1, sz.IDEnd)
		},
		"long properties": func(b *sz.Buf, n int) {
			b.B(sz.IDMainStreams)
			packs(b, 1)
			b.B(sz.IDUnpackInfo, sz.IDFolder, 1, 0, 1, 0x21, 0)
			b.N(uint64(n)) //nolint:gosec
			b.Write(make([]byte, n))
			b.B(sz.IDCodersUnpack, 1, sz.IDEnd, sz.IDEnd, sz.IDFilesInfo, 1, sz.IDEnd)
		},
	}

	for what, write := range kinds {
		for _, n := range []int{1000, 9000, 60000} {
			var b sz.Buf

			b.B(sz.IDHeader)
			write(&b, n)
			b.B(sz.IDEnd)

			var (
				ok  bool
				err error
			)

			if e := h.Timed(func() { ok, err = headerTry(sz.Frame(make([]byte, 100), b.Bytes()), b.Len()) }); e != nil {
				err = e
			}

			h.Env.Count("headers", 1)

			if os.Getenv("VERIF_SHOW") != "" {
				fmt.Println(what, n, ok, err)
			}

			if err != nil {
				what = fmt.Sprintf("%v for a header with %d %s", err, n, what)
				h.Env.Fail(what, what, map[string]any{"header": b.Bytes()})

				return
			}
		}
	}
}

// headerFrames tries all combinations of values in the start header.
func headerFrames() {
	hd := headerSmall
	vals := func(v uint64) []uint64 {
		return []uint64{
			v, 0, v + 1, v - 1, 1000000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 + 5, 1<<63 - 33, 1<<63 - 32,
			1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 33, 1<<64 - 32, 1<<64 - 31, 1<<64 - 20, 1<<64 - 1, -v, -v - 32,
		}
	}

	for _, prefix := range []int{0, 1, 7, 5000} {
		for _, offset := range vals(3) {
			for _, size := range vals(uint64(len(hd))) {
				for _, crc := range []uint32{crc32.ChecksumIEEE(hd), 0} {
					data := append(make([]byte, prefix), sz.FrameRaw([]byte("abc"), hd, offset, size, crc)...)

					var err error

					if e := h.Timed(func() { _, err = headerTry(data, len(data)) }); e != nil {
						err = e
					}

					h.Env.Count("headers", 1)

					if err != nil {
						what := fmt.Sprintf("%v for offset %d, size %d, checksum %08x and %d bytes before", err, offset, size, crc, prefix)
						h.Env.Fail(what, what, map[string]any{"archive": data})

						return
					}
				}
			}
		}
	}
}
