package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["keycache"] = keyCacheCmd
	commands["aesprops"] = aesPropsCmd
	commands["keyidentity"] = keyIdentityCmd
}

// keyArchive is an encrypted archive and what it decrypts to.
type keyArchive struct {
	salt, iv []byte
	cycles   int
	data     []byte
	packed   []byte
	plain    map[string][]byte // by password
}

func aesArchive(props, packed []byte, size int) []byte {
	f := sz.Single(sz.AES, props, packed, size)
	f.Subs = []sz.Sub{{Size: uint64(size)}}
	a := sz.Archive{Folders: []sz.Folder{f}, Files: []sz.File{{Name: "f"}}}

	return a.Bytes()
}

func decryptAES(packed []byte, pw string, salt, iv []byte, cycles int) []byte {
	full := make([]byte, aes.BlockSize)
	copy(full, iv)

	blk, err := aes.NewCipher(enc.Key(pw, salt, cycles))
	if err != nil {
		h.Die("%v", err)
	}

	o := make([]byte, len(packed))
	cipher.NewCBCDecrypter(blk, full).CryptBlocks(o, packed)

	return o
}

// What the archives of the walk differ in.  Neighbours differ in one thing
// only, or would be confused if their parts were just put together.
var keyParams = []struct {
	salt, iv string
	cycles   int
}{
	{"saltsalt", "0123456789abcdef", 1},
	{"saltsalt", "0123456789abcdef", 2},
	{"saltsalu", "0123456789abcdef", 1},
	{"saltsalt", "0123456789abcdeg", 1},
	{"saltsalt", "0123", 1},

	{"", "0123456789abcdef", 1},
	{"", "", 1},
	{"saltsalt", "0123456789abcdef", 63},
	{"saltsalt\x00", "0123456789abcdef", 1},
	{"saltsaltsaltsalt", "0123456789abcdef", 1},

	{"1x", "0123456789abcdef", 1},
	{"x", "0123456789abcdef", 11},
	{"x", "0123456789abcdef", 1},
	{"SALTSALT", "0123456789abcdef", 1},
	{"saltsalt", "", 0},

	{"\xff\xfe", "0123456789abcdef", 3},
	{"\xff\xff", "0123456789abcdef", 3},
	{"\xef\xbf\xbd", "0123456789abcdef", 3},
	{"saltsalt\x00\x00", "0123456789abcdef", 1},
	{"\x00\x00", "\x00", 1},
}

var keyCostly = []int{25, 26, 33, 48, 62}

const keyBlock = 5

type keySys struct {
	as     [][]*keyArchive
	pw     []string
	blocks int
	unit   int
	hs     map[int][]io.ReadCloser
}

func (s *keySys) each(a int, f func(*keyArchive) error) error {
	for i, k := range s.as[a-1] {
		if err := f(k); err != nil {
			return fmt.Errorf("archive %d: salt %q iv %q cycles %d: %w", i, k.salt, k.iv, k.cycles, err)
		}
	}

	return nil
}

func (s *keySys) Do(raw json.RawMessage) error {
	var c struct {
		Op          string
		H, A, P, At int
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		h.Die("%v", err)
	}

	switch c.Op {
	case "open":
		var hs []io.ReadCloser

		err := s.each(c.A, func(k *keyArchive) error {
			r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(k.data), int64(len(k.data)), s.pw[c.P-1])
			if err != nil {
				return err
			}

			f, err := r.File[0].Open()
			if err != nil {
				return err
			}

			hs = append(hs, f)

			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}

		s.hs[c.H] = hs
	case "reject":
		err := s.each(c.A, func(k *keyArchive) error {
			r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(k.data), int64(len(k.data)), s.pw[c.P-1])
			if err != nil {
				return err
			}

			if f, err := r.File[0].Open(); err == nil {
				_ = f.Close()

				return fmt.Errorf("opened although it is too costly")
			}

			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}
	case "read":
		i := -1

		err := s.each(c.A, func(k *keyArchive) error {
			i++
			b := make([]byte, s.unit)

			// Of the first archive, one byte at a time.
			var r io.Reader = s.hs[c.H][i]
			if i == 0 {
				r = oneByte{r}
			}

			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}

			if want := k.plain[s.pw[c.P-1]][c.At*s.unit:][:s.unit]; !bytes.Equal(b, want) {
				return fmt.Errorf("block %d decrypts to %x rather than %x", c.At, b, want)
			}

			return nil
		})
		if err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}
	case "close":
		for _, f := range s.hs[c.H] {
			if err := f.Close(); err != nil {
				return fmt.Errorf("%s: %w", raw, err)
			}
		}

		delete(s.hs, c.H)
	}

	return nil
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}

	return o.r.Read(b[:1]) //nolint:wrapcheck
}

func (s *keySys) End() error {
	for _, l := range s.hs {
		for _, f := range l {
			_ = f.Close()
		}
	}

	return nil
}

func keyCacheCmd(c *Ctx) {
	// The first is what the archives are encrypted with.
	pws := [][]string{{"p", "p1"}, {"", "p"}, {"päss", "pass"}, {"a", "A"}, {"x\U0001f600", "x"}, {strings.Repeat("long", 60), "long"}}

	for _, path := range c.Args {
		g := h.Load(path)

		var cfg struct {
			Archives, Blocks int
			Costly           []int
		}
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		costly := map[int]bool{}
		for _, n := range cfg.Costly {
			costly[n] = true
		}

		rounds := 3
		if !h.Env.Quick() {
			rounds = 40
		}

		for round := 0; round < rounds && !h.Env.Failed(); round++ {
			pw := pws[round%len(pws)]
			unit := []int{16, 48, 7, 100}[round%4]
			perm := c.Rng.Perm(len(keyParams))

			if round == 0 {
				for i := range perm {
					perm[i] = i
				}
			}

			var as [][]*keyArchive

			n := 0

			for i := 1; i <= cfg.Archives; i++ {
				var l []*keyArchive

				for j := 0; j < keyBlock; j++ {
					k := &keyArchive{plain: map[string][]byte{}}

					content := pattern((unit*cfg.Blocks+15)/16*16, i*keyBlock+j)

					if costly[i] {
						k.salt, k.iv, k.cycles = []byte("saltsalt"), []byte("0123456789abcdef"), keyCostly[j]
						props, _ := enc.AES(nil, "", k.salt, k.iv, 0)
						props[0] = props[0]&0xc0 | byte(k.cycles)
						k.data = aesArchive(props, content, len(content))
						l = append(l, k)

						continue
					}

					p := keyParams[perm[n%len(perm)]]
					n++
					k.salt, k.iv, k.cycles = []byte(p.salt), []byte(p.iv), p.cycles
					props, packed := enc.AES(content, pw[0], k.salt, k.iv, k.cycles)

					if props[0]&0xc0 == 0 {
						// Nothing encodes both being empty other than this.
						props[0] |= 0x40
						props = append(props[:2], 0)
					}

					k.data, k.packed = aesArchive(props, packed, len(content)), packed

					for _, q := range pw {
						k.plain[q] = decryptAES(packed, q, k.salt, k.iv, k.cycles)
					}

					if !bytes.Equal(k.plain[pw[0]], content) {
						h.Die("own encryption does not decrypt")
					}

					l = append(l, k)
				}

				as = append(as, l)
			}

			w := &h.Walker{
				G: g, Rng: c.Rng, Name: fmt.Sprintf("keys round %d passwords %q", round, pw),
				Ctx: map[string]any{"passwords": pw, "unit": unit, "order": perm},
				New: func(json.RawMessage) h.System {
					return &keySys{as, pw, cfg.Blocks, unit, map[int][]io.ReadCloser{}}
				},
			}
			w.Cover()
			w.Random(30, 100)
			w.Done()
			h.Env.Sample(map[string]any{"passwords": pw, "unit": unit, "walks": w.Walks, "steps": w.Steps})
		}
	}
}

var aesPasswords = []string{"", "password", "pä\U0001f600ß\x00x", strings.Repeat("0123456789", 30)}

func aesPropsCmd(c *Ctx) {
	h.Cases(c.Args, func(n int, line []byte) error {
		var a struct {
			B0, B1, Present, Pw int
			Dec                 struct {
				Salt, Iv, Cost int
				Reply          string
			}
		}
		if err := json.Unmarshal(line, &a); err != nil {
			h.Die("%v", err)
		}

		pw := aesPasswords[a.Pw-1]
		content := pattern(16*(1+n%5)-n%16, n)

		rest := make([]byte, 64)
		for i := range rest {
			rest[i] = byte(n*7 + i*13 + 1)
		}

		props := append([]byte{byte(a.B0), byte(a.B1)}, rest...)[:2+a.Present]

		var packed []byte

		if a.Dec.Reply == "ok" || a.Dec.Reply == "none" {
			// Where there are too few bytes any content would be wrong.
			all := append([]byte{0, 0}, rest...)
			salt, iv := all[2:][:a.Dec.Salt], all[2+a.Dec.Salt:][:a.Dec.Iv]
			_, packed = enc.AES(content, pw, salt, iv, a.Dec.Cost)
		} else {
			packed = make([]byte, (len(content)+15)/16*16)
		}

		data := aesArchive(props, packed, len(content))

		r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), pw)
		if err != nil {
			return fmt.Errorf("opening the archive: %w", err)
		}

		// Twice: the second time the key may come from the cache.
		for i := 0; i < 2; i++ {
			f, err := r.File[0].Open()
			if err != nil {
				if a.Dec.Reply == "ok" {
					return fmt.Errorf("opening the file: %w", err)
				}

				continue
			}

			if a.Dec.Reply == "error" {
				return fmt.Errorf("opened")
			}

			b, err := io.ReadAll(f)
			if err != nil || !bytes.Equal(b, content) {
				return fmt.Errorf("decrypts to %x rather than %x, error %v", b, content, err)
			}

			if err := f.Close(); err != nil {
				return fmt.Errorf("closing: %w", err)
			}
		}

		return nil
	})
}

// keyIdentityCmd opens archives right after each other that some way of
// looking keys up takes for the same.
func keyIdentityCmd(c *Ctx) {
	type params struct {
		Pw, Salt string
		Cost     int
		Flat     []string
	}

	groups := map[string][]*params{}

	for _, path := range c.Args {
		h.Lines(path, func(b []byte) {
			p := new(params)
			if err := json.Unmarshal(b, p); err != nil {
				h.Die("%v", err)
			}

			for _, f := range p.Flat {
				groups[f] = append(groups[f], p)
			}
		})
	}

	keys := make([]string, 0, len(groups))

	for k, g := range groups {
		if len(g) > 1 {
			keys = append(keys, k)
		}
	}

	if len(keys) == 0 {
		h.Die("no cases in %v", c.Args)
	}

	sort.Strings(keys)

	var (
		shard, shards = 0, 1
		content       = pattern(16, 1)
		iv            = []byte("0123456789abcdef")
		seps          = []string{":", "\x00", "|", "/", "-", " ", "_", ","}
		opened        int64
	)

	if s := os.Getenv("VERIF_SHARD"); s != "" {
		if _, err := fmt.Sscanf(s, "%d/%d", &shard, &shards); err != nil {
			h.Die("%v", err)
		}
	}

	for n, k := range keys {
		if n%shards != shard || h.Env.Failed() {
			continue
		}

		var (
			sep  = seps[n/shards%len(seps)]
			seen []string
		)

		// Some of the largest groups only.
		g := groups[k]
		if len(g) > 12 && h.Env.Quick() {
			g = slices.Clone(g)
			c.Rng.Shuffle(len(g), func(i, j int) { g[i], g[j] = g[j], g[i] })
			g = g[:12]
		}

		for _, p := range g {
			pw, salt := strings.ReplaceAll(p.Pw, ":", sep), strings.ReplaceAll(p.Salt, ":", sep)
			seen = append(seen, fmt.Sprintf("%q %q %d", pw, salt, p.Cost))

			props, packed := enc.AES(content, pw, []byte(salt), iv, p.Cost)
			data := aesArchive(props, packed, len(content))

			r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(data), int64(len(data)), pw)
			if err == nil {
				var f io.ReadCloser

				if f, err = r.File[0].Open(); err == nil {
					var b []byte

					if b, err = io.ReadAll(f); err == nil && !bytes.Equal(b, content) {
						err = fmt.Errorf("decrypts to %x rather than %x", b, content)
					}

					_ = f.Close()
				}
			}

			opened++

			if err != nil {
				what := fmt.Sprintf("passwords, salts and costs one after the other: %s: %v", strings.Join(seen, ", "), err)
				h.Env.Fail(k, what, map[string]any{"seen": seen, "way": k})

				break
			}
		}

		h.Env.Count("groups", 1)
	}

	h.Env.Count("opens", int(opened))
}
