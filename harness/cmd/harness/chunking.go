package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["chunking"], commands["closing"] = chunkingCmd, closingCmd }

// The method of a decoder that delivers what it reads in portions.
var chunkID = []byte{0x7f, 0x63, 0x68}

type chunkPlan struct {
	portions []int // repeated
	with     bool  // the end is reported with the last bytes
	soil     bool  // what is behind the bytes delivered is overwritten
	life     *chunkLife
}

// chunkLife is what happened to the portioning decoders of a stream.
type chunkLife struct {
	created, closed, late atomic.Int32
}

var (
	chunkPlans sync.Map
	chunkNext  atomic.Uint64
	chunkOnce  sync.Once
)

func chunkRegister() {
	chunkOnce.Do(func() {
		sevenzip.RegisterDecompressor(chunkID, func(p []byte, size uint64, r []io.ReadCloser) (io.ReadCloser, error) {
			v, _ := chunkPlans.Load(binary.BigEndian.Uint64(p))
			plan := v.(*chunkPlan) //nolint:forcetypeassert

			if plan.life != nil {
				plan.life.created.Add(1)
			}

			return &chunker{rc: r[0], left: int(size), plan: plan}, nil //nolint:gosec
		})

		enc.Steps["chunk"] = enc.Step{ID: chunkID, Make: func(b []byte) ([]byte, []byte) { return make([]byte, 8), b }}
	})
}

type chunker struct {
	rc   io.ReadCloser
	left int
	plan *chunkPlan
	n    int
	// what was read already
	held   []byte
	closed bool
}

func (c *chunker) Close() error {
	if l := c.plan.life; l != nil {
		l.closed.Add(1)
	}

	c.closed = true

	return c.rc.Close() //nolint:wrapcheck
}

func (c *chunker) Read(p []byte) (int, error) {
	if l := c.plan.life; l != nil && c.closed {
		l.late.Add(1)
	}

	if len(p) == 0 {
		return 0, nil
	}

	if c.left == 0 {
		return 0, io.EOF
	}

	n := c.plan.portions[c.n%len(c.plan.portions)]
	c.n++
	n = min(n, len(p), c.left)

	// Reads below do not depend on those above.
	if len(c.held) < n {
		b := make([]byte, min(c.left, 1<<16)-len(c.held))
		m, err := io.ReadFull(c.rc, b)
		c.held = append(c.held, b[:m]...)

		if m == 0 && err != nil {
			return 0, err //nolint:wrapcheck
		}

		n = min(n, len(c.held))
	}

	copy(p, c.held[:n])
	c.held = c.held[n:]
	c.left -= n

	if c.plan.soil {
		for i := n; i < len(p); i++ {
			p[i] = 0xe8
		}
	}

	if c.left == 0 && c.plan.with {
		return n, io.EOF
	}

	return n, nil
}

// chunkAlphabets are bytes that make up branch instructions.
var chunkAlphabets = map[string][]byte{
	"bcj":   {0xe8, 0xe9, 0x00, 0xff, 0x00, 0xff, 0x0f, 0x12},
	"bcj2":  {0xe8, 0xe9, 0x0f, 0x80, 0x8f, 0x00, 0xff, 0x12},
	"arm":   {0xeb, 0xeb, 0x00, 0xff, 0x12, 0x80},
	"arm64": {0x94, 0x97, 0x90, 0xb0, 0xd0, 0xf0, 0x00, 0xff, 0x12},
	"ppc":   {0x48, 0x4b, 0x01, 0x01, 0x00, 0xff},
	"sparc": {0x40, 0x7f, 0x00, 0xff, 0xc0, 0x12},
}

// chunkContent returns n bytes full of what the first filter named acts upon.
func chunkContent(chain string, n int, rng *rand.Rand) []byte {
	b := make([]byte, n)
	alphabet := []byte(nil)

	for name, a := range chunkAlphabets {
		if strings.HasPrefix(chain, name) && len(alphabet) < len(a) {
			alphabet = a
		}
	}

	if alphabet == nil || rng.Intn(8) == 0 {
		return pattern(n, rng.Intn(1000))
	}

	for i := range b {
		b[i] = alphabet[rng.Intn(len(alphabet))]
	}

	if rng.Intn(2) == 0 {
		// and now and then something else
		for i := 0; i < n/4; i++ {
			b[rng.Intn(n)] = byte(rng.Intn(256))
		}
	}

	return b
}

// chunkFolder is the chain with something that delivers portions in front of
// each of its coders.
func chunkFolder(chain string, content []byte, plans func() *chunkPlan) (f sz.Folder, forget func()) {
	switch {
	case chain == "bcj2":
		s := enc.BCJ2(content, func(pos int) bool { return pos%5 != 0 })

		for i := range s {
			f.Coders = append(f.Coders, sz.Coder{ID: chunkID, Props: make([]byte, 8), Size: uint64(len(s[i]))})
			f.Packed = append(f.Packed, uint64(i))
			f.Binds = append(f.Binds, sz.Bind{In: uint64(4 + i), Out: uint64(i)}) //nolint:gosec
		}

		f.Streams = s[:]
		f.Coders = append(f.Coders, sz.Coder{ID: sz.BCJ2, In: 4, Size: uint64(len(content))})
	default:
		f = enc.Linear(strings.Split("chunk+"+strings.ReplaceAll(chain, "+", "+chunk+"), "+"), content)
	}

	var keys []uint64

	for i := range f.Coders {
		if bytes.Equal(f.Coders[i].ID, chunkID) {
			k := chunkNext.Add(1)
			f.Coders[i].Props = binary.BigEndian.AppendUint64(nil, k)

			chunkPlans.Store(k, plans())

			keys = append(keys, k)
		}
	}

	return f, func() {
		for _, k := range keys {
			chunkPlans.Delete(k)
		}
	}
}

// chunkStorage reports the end of the data either way and soils the buffer.
type chunkStorage struct {
	b    []byte
	with bool
}

func (s *chunkStorage) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(s.b)) {
		return 0, io.EOF
	}

	n := copy(p, s.b[off:])

	if n < len(p) || s.with && int(off)+n == len(s.b) {
		return n, io.EOF
	}

	return n, nil
}

// chunkRead reads everything from rc with buffers of the sizes, repeated.
//
//nolint:cyclop
func chunkRead(rc io.Reader, content []byte, sizes []int, rng *rand.Rand) error {
	const canary = 0xa5

	buf := make([]byte, 0, 64)
	at, idle := 0, 0

	for i := 0; ; i++ {
		n := sizes[i%len(sizes)]

		if cap(buf) < n+32 {
			buf = make([]byte, 0, n+32)
		}

		all := buf[:cap(buf)]
		tail := all[n : n+32]

		for j := range tail {
			tail[j] = canary
		}

		m, err := rc.Read(all[:n])

		if m < 0 || m > n {
			return fmt.Errorf("a read of %d bytes at %d reports %d", n, at, m)
		}

		for j := range tail {
			if tail[j] != canary {
				return fmt.Errorf("a read of %d bytes at %d wrote byte %d of the memory behind", n, at, j)
			}
		}

		if at+m > len(content) || !bytes.Equal(all[:m], content[at:at+m]) {
			return fmt.Errorf("a read of %d bytes at %d returns %d wrong bytes: %s",
				n, at, m, differ(all[:m], content[at:min(at+m, len(content))]))
		}

		at += m

		if err == io.EOF { //nolint:errorlint
			break
		}

		if err != nil {
			return fmt.Errorf("a read of %d bytes at %d: %w", n, at, err)
		}

		if m > 0 {
			idle = 0
		} else if idle++; idle > 1000 {
			return fmt.Errorf("%d reads returned nothing at %d of %d", idle, at, len(content))
		}
	}

	if at != len(content) {
		return fmt.Errorf("the end is reported after %d of %d bytes", at, len(content))
	}

	// It stays the end.
	if m, err := rc.Read(make([]byte, 1+rng.Intn(9))); m != 0 || err == nil {
		return fmt.Errorf("a read after the end returns %d, %w", m, err)
	}

	return nil
}

func differ(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("first at %d: %x, not %x", i, a[i:min(i+8, len(a))], b[min(i, len(b)):min(i+8, len(b))])
		}
	}

	return "none differs"
}

type chunkCase struct {
	Len         int
	With        bool
	Plan, Asked []int
}

//nolint:gochecknoglobals
var (
	chunkChains = []string{
		"bcj", "arm", "arm64", "ppc", "sparc", "delta1", "delta4", "delta256", "bcj2", "aes",
	}
	chunkOther = []string{
		"copy", "deflate", "bzip2", "lzma", "lzma2", "zstd", "brotli", "brraw", "lz4",
	}
)

func chunkOpen(f sz.Folder, content []byte, rng *rand.Rand) (*sevenzip.Reader, error) {
	// The contents may be those of two files.
	cut := len(content)
	if len(content) > 1 && rng.Intn(2) == 0 {
		cut = 1 + rng.Intn(len(content)-1)
	}

	f.Subs = []sz.Sub{{Size: uint64(cut), CRC: sz.CRC(content[:cut])}} //nolint:gosec
	files := []sz.File{{Name: "a"}}

	if cut < len(content) {
		f.Subs = append(f.Subs, sz.Sub{Size: uint64(len(content) - cut), CRC: sz.CRC(content[cut:])}) //nolint:gosec
		files = append(files, sz.File{Name: "b"})
	}

	a := sz.Archive{Folders: []sz.Folder{f}, Files: files}
	b := a.Bytes()

	return sevenzip.NewReaderWithPassword(&chunkStorage{b, rng.Intn(2) == 0}, int64(len(b)), enc.Password) //nolint:wrapcheck
}

// chunkCheck reads all files of the chain, one after the other or the last one
// alone.
func chunkCheck(chain string, content []byte, plans func() *chunkPlan, sizes []int, rng *rand.Rand) (err error) {
	f, forget := chunkFolder(chain, content, plans)
	defer forget()

	var b []byte

	defer func() {
		if err != nil {
			err = fmt.Errorf("%s of %d bytes: %w (archive %x)", chain, len(content), err, b[:min(len(b), 400)])
		}
	}()

	r, err := chunkOpen(f, content, rng)
	if err != nil {
		return fmt.Errorf("opening: %w", err)
	}

	at := 0

	for i, fl := range r.File {
		n := int(fl.UncompressedSize) //nolint:gosec
		at += n

		if i < len(r.File)-1 && rng.Intn(3) == 0 {
			continue
		}

		rc, err := fl.Open()
		if err != nil {
			return fmt.Errorf("opening file %d: %w", i, err)
		}

		if err := chunkRead(rc, content[at-n:at], sizes, rng); err != nil {
			return fmt.Errorf("file %d: %w", i, err)
		}

		if err := rc.Close(); err != nil {
			return fmt.Errorf("closing file %d: %w", i, err)
		}
	}

	if at != len(content) {
		return fmt.Errorf("the files have %d bytes", at)
	}

	return nil
}

// chunkSizes are around what decoders use for buffers and blocks.
func chunkSizes(rng *rand.Rand, zero bool) []int {
	classes := []int{
		1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 511, 512, 513,
		4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 100000,
	}
	out := make([]int, 1+rng.Intn(6))
	k := []int{6, 12, len(classes)}[rng.Intn(3)]

	for i := range out {
		if out[i] = classes[rng.Intn(k)]; zero && i > 0 && rng.Intn(6) == 0 {
			out[i] = 0
		}
	}

	return out
}

//nolint:cyclop,funlen
func chunkingCmd(c *Ctx) {
	chunkRegister()

	h.Cases(c.Args, func(n int, line []byte) error {
		var cs chunkCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		rng := rand.New(rand.NewSource(c.Seed*7919 + int64(n))) //nolint:gosec
		if len(cs.Plan) == 0 {
			cs.Plan = []int{1}
		}

		for k, chain := range chunkChains {
			if h.Env.Quick() && (n+k)%3 != 0 && chain != "bcj" {
				continue
			}

			scale := 1
			if chain == "aes" {
				scale = 4
			}

			up := func(v []int) []int {
				o := append([]int(nil), v...)
				for i := range o {
					o[i] *= scale
				}

				return o
			}

			content := chunkContent(chain, cs.Len*scale, rng)
			plan := &chunkPlan{portions: up(cs.Plan), with: cs.With, soil: rng.Intn(2) == 0}

			err := chunkCheck(chain, content, func() *chunkPlan { return plan }, up(cs.Asked), rng)
			if err != nil {
				return fmt.Errorf("content %x: %w", content, err)
			}

			h.Env.Count("short", 1)
		}

		return nil
	})

	chains := append(append([]string(nil), chunkChains...), chunkOther...)

	for _, a := range chunkChains {
		for _, b := range append(append([]string(nil), chunkChains...), "lzma", "deflate", "zstd", "lz4") {
			if a != "bcj2" && b != "bcj2" {
				chains = append(chains, b+"+"+a)
			}
		}
	}

	chains = append(chains, "aes+lzma+bcj+delta4", "deflate+aes+arm64")

	n := 50
	if !h.Env.Quick() {
		n = 1500
	}

	h.Parallel(n*len(chains), func(i int) {
		rng := rand.New(rand.NewSource(c.Seed*15485863 + int64(i))) //nolint:gosec
		chain := chains[i%len(chains)]
		long := []int{40, 700, 9000, 200000}[rng.Intn(4)]
		size := rng.Intn(long)

		if rng.Intn(4) == 0 {
			size = chunkSizes(rng, false)[0]
		}

		last := chain[strings.LastIndex(chain, "+")+1:]
		content := chunkContent(last, size, rng)
		sizes := chunkSizes(rng, true)

		err := error(nil)
		if e := h.Timed(func() {
			err = chunkCheck(chain, content, func() *chunkPlan {
				return &chunkPlan{
					portions: chunkSizes(rng, false), with: rng.Intn(2) == 0, soil: rng.Intn(2) == 0,
				}
			}, sizes, rng)
		}); e != nil {
			err = e
		}

		h.Env.Count("long", 1)

		if err != nil {
			h.Env.Fail(fmt.Sprint("long ", chain), fmt.Sprintf("%v with buffers of %v", err, sizes), map[string]any{
				"seed": c.Seed, "number": i, "chain": chain, "size": size, "buffers": sizes,
			})
		}
	})
}

// closingCmd checks that closing a file closes what stands below each coder of
// its chain, once, and that nothing reads from it after.
func closingCmd(c *Ctx) {
	chunkRegister()

	chains := append([]string{"aes+lzma2", "delta4+bcj", "lz4+aes", "zstd+bcj+delta1", "ppc+lzma+aes"}, chunkChains...)
	chains = append(chains, chunkOther...)

	rounds := 20
	if !h.Env.Quick() {
		rounds = 400
	}

	h.Parallel(len(chains)*rounds, func(i int) {
		chain := chains[i%len(chains)]
		rng := rand.New(rand.NewSource(c.Seed*32452843 + int64(i))) //nolint:gosec
		content := chunkContent(chain, 20+rng.Intn([]int{60, 3000, 100000}[rng.Intn(3)]), rng)

		var lives []*chunkLife

		f, forget := chunkFolder(chain, content, func() *chunkPlan {
			lives = append(lives, new(chunkLife))

			return &chunkPlan{portions: []int{1 + rng.Intn(5000)}, with: rng.Intn(2) == 0, life: lives[len(lives)-1]}
		})
		defer forget()

		var what string

		err := h.Timed(func() {
			what = closingTry(f, content, lives, rng)
		})
		if err == nil && what != "" {
			err = fmt.Errorf("%s of %d bytes: %s", chain, len(content), what) //nolint:err113
		}

		h.Env.Count("cases", 1)

		if err != nil {
			h.Env.Fail("closing "+chain, err.Error(), map[string]any{"seed": c.Seed, "number": i, "chain": chain})
		}
	})
}

// closingTry reads the two files of the folder in some order and how far.
func closingTry(f sz.Folder, content []byte, lives []*chunkLife, rng *rand.Rand) string {
	cut := len(content)
	files := []sz.File{{Name: "a"}}

	if rng.Intn(2) == 0 {
		cut = 1 + rng.Intn(len(content)-1)
		files = append(files, sz.File{Name: "b"})
	}

	f.Subs = []sz.Sub{{Size: uint64(cut), CRC: sz.CRC(content[:cut])}} //nolint:gosec
	if len(files) > 1 {
		f.Subs = append(f.Subs, sz.Sub{Size: uint64(len(content) - cut), CRC: sz.CRC(content[cut:])}) //nolint:gosec
	}

	a := sz.Archive{Folders: []sz.Folder{f}, Files: files}
	b := a.Bytes()

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), enc.Password)
	if err != nil {
		return err.Error()
	}

	// What is kept for later is not closed, all is read to its end then.
	order := rng.Perm(len(files))
	order = append(order, order[0])

	for k, n := range order {
		if len(files) == 1 && k == 1 {
			break
		}

		rc, err := r.File[n].Open()
		if err != nil {
			return err.Error()
		}

		part := int64(1 << 30)
		if len(files) == 1 {
			part = int64(rng.Intn(len(content) + 2))
		}

		if _, err = io.CopyN(io.Discard, rc, part); err != nil && err != io.EOF { //nolint:errorlint
			return err.Error()
		}

		if err = rc.Close(); err != nil {
			return "closing: " + err.Error()
		}
	}

	if len(files) > 1 {
		// Files at the end close what was kept as well.
		for range 3 {
			rc, err := r.File[1].Open()
			if err != nil {
				return err.Error()
			}

			_, _ = io.Copy(io.Discard, rc)
			_ = rc.Close()
		}
	}

	for i, l := range lives {
		created, closed, late := l.created.Load(), l.closed.Load(), l.late.Load()
		if created == 0 || closed != created || late > 0 {
			return fmt.Sprintf("input %d was opened %d times, closed %d times and read %d times after that", i, created, closed, late)
		}
	}

	return ""
}
