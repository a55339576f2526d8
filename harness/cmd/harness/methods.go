package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["methods"] = methodsCmd }

type methodsCase struct {
	Method                    string
	Props, Size, Inputs, Data []any
	Right                     bool
}

func methodsInt(v []any, i int) int { return int(v[i].(float64)) } //nolint:forcetypeassert

// methodsData departs from what there is to decode.
func methodsData(how string, b []byte, rng *rand.Rand) []byte {
	b = append([]byte(nil), b...)

	switch how {
	case "none":
		return nil
	case "half":
		return b[:rng.Intn(len(b)+1)]
	case "zeros":
		return make([]byte, len(b))
	case "ones":
		return bytes.Repeat([]byte{0xff}, len(b))
	case "noise":
		rng.Read(b)
	case "flipped":
		for k := 1 + rng.Intn(4); k > 0 && len(b) > 0; k-- {
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		}
	case "again":
		b = append(b, b...)
	case "start":
		// What comes first is right, what follows is not.
		for i := min(len(b), 4+rng.Intn(40)); i < len(b); i++ {
			b[i] = byte(rng.Intn(256))
		}
	case "trail":
		b = append(b, make([]byte, 1+rng.Intn(100))...)
	}

	return b
}

//nolint:cyclop,funlen
func methodsCheck(cs *methodsCase, rng *rand.Rand) (data []byte, err error) {
	content := pattern(1+rng.Intn(900), rng.Intn(99))

	var f sz.Folder

	switch cs.Method {
	case "ppmd":
		content = enc.PPMDContent
		f = enc.Chain(cs.Method, content)
	case "bcj2":
		s := enc.BCJ2(content, func(pos int) bool { return pos%3 != 0 })
		f = sz.Folder{Coders: []sz.Coder{{ID: sz.BCJ2, In: 4, Size: uint64(len(content))}}, Packed: []uint64{0, 1, 2, 3}}
		f.Streams = append(f.Streams, s[:]...)
	default:
		f = enc.Chain(cs.Method, content)
	}

	c := &f.Coders[0]

	switch cs.Props[0] {
	case "short":
		c.Props = c.Props[:max(0, len(c.Props)-methodsInt(cs.Props, 1))]
	case "long":
		c.Props = append(append([]byte(nil), c.Props...), pattern(methodsInt(cs.Props, 1), 1)...)
	case "byte":
		c.Props = append([]byte(nil), c.Props...)
		if i := methodsInt(cs.Props, 1); i <= len(c.Props) {
			c.Props[i-1] = byte(methodsInt(cs.Props, 2))
		}
	}

	switch cs.Size[0] {
	case "none":
		c.Size = 0
	case "less":
		c.Size--
	case "more":
		c.Size++
	case "n":
		c.Size = headerBig[methodsInt(cs.Size, 1)]
	}

	if cs.Data[0] != "right" {
		which := rng.Intn(len(f.Streams) + 1)
		for i := range f.Streams {
			if which == len(f.Streams) || which == i {
				f.Streams[i] = methodsData(cs.Data[0].(string), f.Streams[i], rng) //nolint:forcetypeassert
			}
		}
	}

	if cs.Inputs[0] != "right" {
		n := methodsInt(cs.Inputs, 1)
		for len(f.Streams) < n {
			f.Streams = append(f.Streams, f.Streams[rng.Intn(len(f.Streams))])
		}

		f.Streams = f.Streams[:n]
		c.In, f.Packed = uint64(n), nil

		for i := 0; i < n; i++ {
			f.Packed = append(f.Packed, uint64(i))
		}
	}

	a := sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "x"}}, NoSubStreams: true}

	twice := rng.Intn(3) == 0 && c.Size > 3
	if twice {
		a.NoSubStreams = false
		a.Folders[0].Subs = []sz.Sub{{Size: 3}, {Size: c.Size - 3}}
		a.Files = append(a.Files, sz.File{Name: "y"})
	}

	data = a.Bytes()

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), enc.Password)
	if err != nil {
		if cs.Right {
			return data, fmt.Errorf("cannot be opened: %w", err)
		}

		return data, nil
	}

	var got []byte

	for _, f := range r.File {
		b, err := methodsRead(f, rng)
		if err != nil && cs.Right {
			return data, fmt.Errorf("cannot be read: %w", err)
		}

		got = append(got, b...)
	}

	if cs.Right && !bytes.Equal(got, content) {
		return data, fmt.Errorf("%d wrong bytes", len(got))
	}

	return data, nil
}

func methodsRead(f *sevenzip.File, rng *rand.Rand) (b []byte, err error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err //nolint:wrapcheck
	}

	b, err = io.ReadAll(io.LimitReader(rc, 1<<18))
	// Once more, in vain or not.
	_, _ = rc.Read(make([]byte, rng.Intn(30)))

	if e := rc.Close(); err == nil {
		err = e
	}

	return b, err //nolint:wrapcheck
}

func methodsCmd(c *Ctx) {
	rounds := 3
	if !h.Env.Quick() {
		rounds = 40
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs methodsCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(n*rounds+i))) //nolint:gosec

			_, err := methodsCheck(&cs, rng)

			return err
		})
	}
}
