package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"slices"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
)

func init() { commands["scan"] = scanCmd }

type scanCase struct {
	F struct {
		Archive, Frag int
		Decoys        []int
	}
	Open, Left bool
}

func scanCmd(c *Ctx) {
	rounds := 1
	if !h.Env.Quick() {
		rounds = 20
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs scanCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			return scanCheck(&cs, rand.New(rand.NewSource(c.Seed*1000003+int64(n*rounds+i)))) //nolint:gosec
		})
	}
}

var signature = []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c}

// eager reports the end of the data together with its last bytes, as volumes do
// with another error.
type eager struct {
	b   []byte
	err error
}

func (e *eager) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(e.b)) {
		return 0, io.EOF
	}

	n := copy(p, e.b[off:])
	if n < len(p) {
		return n, e.err
	}

	if int(off)+n == len(e.b) {
		return n, io.EOF
	}

	return n, nil
}

//nolint:cyclop,funlen,gocognit,gocyclo
func scanCheck(cs *scanCase, rng *rand.Rand) error {
	const limit = 1 << 20

	kind := &integrityCase{}
	kind.A.Enc = []string{"plain", "plain", "copy", "packed"}[rng.Intn(4)]
	kind.A.Digest = true
	ia := integrityBuild(kind, rng)

	// What is before the archive.
	n := cs.F.Archive
	end := n + len(ia.data)

	if n < 0 {
		n = limit + 4096*rng.Intn(3) + rng.Intn(9)
		if rng.Intn(3) == 0 && len(cs.F.Decoys) > 0 {
			n = slices.Max(cs.F.Decoys) + 6 + rng.Intn(40)
		}

		end = n
	}

	tail := []int{0, 0, 1, 5, 40, 5000}[rng.Intn(6)]

	for _, d := range cs.F.Decoys {
		if d >= end {
			tail = max(tail, d+6+rng.Intn(40)-end)
		}
	}

	data := make([]byte, end+tail)

	fill := rng.Intn(5)
	switch fill {
	case 0: // zeros
	case 1:
		rng.Read(data)
	case 2: // beginnings of signatures
		for i := 0; i < len(data); i++ {
			data[i] = signature[i%5]
		}
	case 3:
		for i := 0; i < len(data); {
			i += copy(data[i:], signature[:1+rng.Intn(5)])
		}
	case 4:
		for i := range data {
			data[i] = '7'
		}
	}

	var put []int

	for _, d := range cs.F.Decoys {
		if cs.F.Archive >= 0 && d > cs.F.Archive-6 && d < end {
			continue // that would be inside of the archive
		}

		put = append(put, d)
		head := slices.Clone(ia.data[:32])

		switch rng.Intn(5) {
		case 0:
			head = head[:6] // followed by whatever is there
		case 1:
			copy(head[6:], make([]byte, 26))
		case 2:
			rng.Read(head[8:])
		case 3:
			head[8+rng.Intn(24)] ^= byte(1 << rng.Intn(8))
		case 4: // everything but the checksum is right
			head = slices.Clone(ia.data)
			head[8+rng.Intn(4)] ^= byte(1 + rng.Intn(255))
		}

		if cs.F.Archive >= 0 && d < cs.F.Archive {
			head = head[:min(len(head), cs.F.Archive-d)]
		}

		for _, o := range cs.F.Decoys {
			if o > d {
				head = head[:min(len(head), o-d)]
			}
		}

		copy(data[d:], head)
	}

	if cs.F.Archive >= 0 {
		copy(data[cs.F.Archive:], ia.data)

		if cs.F.Frag > 0 {
			copy(data[cs.F.Archive-cs.F.Frag:], signature[:cs.F.Frag])
		}
	}

	// The filling must not have made another one.
	for i := 0; ; {
		j := bytes.Index(data[i:], signature)
		if j < 0 {
			break
		}

		i += j
		if !slices.Contains(cs.F.Decoys, i) && (cs.F.Archive < 0 || i < cs.F.Archive || i >= end) && i <= limit {
			data[i] = 0
		}

		i++
	}

	var ra io.ReaderAt = bytes.NewReader(data)

	switch rng.Intn(4) {
	case 0:
		ra = &eager{data, io.EOF}
	case 1:
		ra = &eager{data, io.ErrUnexpectedEOF}
	}

	where := fmt.Sprintf("%d bytes, decoys at %v, filling %d, %s", len(data), put, fill, ia.what)

	r, err := sevenzip.NewReaderWithPassword(ra, int64(len(data)), enc.Password)

	switch {
	case cs.Left:
		return nil
	case !cs.Open && err == nil:
		return fmt.Errorf("opened (%s)", where)
	case !cs.Open:
		return nil
	case err != nil:
		return fmt.Errorf("opening failed: %w (%s)", err, where)
	case listing(r) != ia.list:
		return fmt.Errorf("the listing is\n%sinstead of\n%s(%s)", listing(r), ia.list, where)
	}

	if err := ia.read(r); err != nil {
		return fmt.Errorf("%w (%s)", err, where)
	}

	return nil
}
