package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["pool"] = poolCmd }

type poolCfg struct {
	Streams [][]int `json:"streams"`
	Cap     int     `json:"cap"`
}

// poolArchive is an archive whose streams hold files of the model's sizes.
type poolArchive struct {
	cfg      poolCfg
	chain    string
	data     []byte
	contents [][]byte // by stream
	bounds   [][]int  // byte offsets by stream and unit
	first    []int    // number of the first file by stream
	empties  []int
	names    []string
	rec      *recorder
}

func (a *poolArchive) units(s int) int {
	n := 0
	for _, u := range a.cfg.Streams[s] {
		n += u
	}

	return n
}

func (a *poolArchive) off(s, i int) (from, to int) {
	for k := 0; k < i; k++ {
		from += a.cfg.Streams[s][k]
	}

	return from, from + a.cfg.Streams[s][i]
}

// newPoolArchive writes the archive.  unit is the number of bytes per unit of
// the model; the files' metadata is kept apart from the streams by putting
// entries without content in between.
func newPoolArchive(cfg poolCfg, chain string, unit int, probed bool) *poolArchive {
	a := &poolArchive{cfg: cfg, chain: chain}

	if probed {
		a.rec = newRecorder()
	}

	var w sz.Archive

	empty := func(file bool) {
		a.empties = append(a.empties, len(w.Files))
		w.Files = append(w.Files, sz.File{Name: fmt.Sprintf("e%d", len(w.Files)), Empty: true, EmptyFile: file})
	}

	empty(true)

	for s := range cfg.Streams {
		u := a.units(s)

		var content []byte

		bounds := make([]int, u+1)

		if chain == "ppmd" && u > 0 {
			content = enc.PPMDContent
			for k := range bounds {
				bounds[k] = k * len(content) / u
			}
		} else {
			content = pattern(u*unit, s+1)
			for k := range bounds {
				bounds[k] = k * unit
			}
		}

		f := poolFolder(chain, content)
		if probed {
			f = enc.WithTop(f, probeID, a.rec.props(s))
		}

		a.first = append(a.first, len(w.Files))

		for i := range cfg.Streams[s] {
			from, to := a.off(s, i)
			c := content[bounds[from]:bounds[to]]
			f.Subs = append(f.Subs, sz.Sub{Size: uint64(len(c)), CRC: sz.CRC(c)})
			w.Files = append(w.Files, sz.File{Name: fmt.Sprintf("d%d/f%d", s, i)})
		}

		w.Folders = append(w.Folders, f)
		a.contents = append(a.contents, content)
		a.bounds = append(a.bounds, bounds)

		empty(true)
	}

	for _, f := range w.Files {
		a.names = append(a.names, f.Name)
	}

	a.data = w.Bytes()

	return a
}

var (
	poolFolders   = map[string]sz.Folder{}
	poolFoldersMu sync.Mutex
)

// poolFolder caches encoded folders.
func poolFolder(chain string, content []byte) sz.Folder {
	if chain == "ppmd" && len(content) == 0 {
		chain = "copy"
	}

	k := chain + "|" + string(content)

	poolFoldersMu.Lock()
	defer poolFoldersMu.Unlock()

	f, ok := poolFolders[k]
	if !ok {
		f = enc.Chain(chain, content)
		poolFolders[k] = f
	}

	f.Subs = nil

	return f
}

// poolHandle is an open file.
type poolHandle struct {
	r    io.ReadCloser
	s, i int // stream -1 has no content
	pos  int // bytes read
	p    *probe
}

// poolSys is the archive seen through the model's actions.
type poolSys struct {
	a       *poolArchive
	r       *sevenzip.Reader
	rng     *rand.Rand
	handles map[int]*poolHandle
	idle    []map[int]*probe // by stream: what stands idle, by position
	life    bool             // compare the decoders' life (C03)
	choice  bool             // compare which decoder is used (C04)
	isDone  bool
}

func newPoolSys(a *poolArchive, rng *rand.Rand) *poolSys {
	s := &poolSys{a: a, rng: rng, handles: map[int]*poolHandle{}}

	if a.rec != nil {
		// The recorder is shared by all walks over this archive: start afresh.
		a.rec.mu.Lock()
		a.rec.probes, a.rec.bad = nil, nil
		a.rec.mu.Unlock()
		a.rec.reset()

		for range a.cfg.Streams {
			s.idle = append(s.idle, map[int]*probe{})
		}

		s.life = h.Env.Property == "C03"
		s.choice = h.Env.Property == "C04"
	}

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(a.data), int64(len(a.data)), enc.Password)
	if err != nil {
		h.Die("archive of chain %s: %v", a.chain, err)
	}

	s.r = r

	return s
}

type poolAct struct {
	Op      string `json:"op"`
	H       int    `json:"h"`
	S       int    `json:"s"`
	I       int    `json:"i"`
	From    int    `json:"from"`
	At      int    `json:"at"`
	Fresh   bool   `json:"fresh"`
	M       int    `json:"m"`
	N       int    `json:"n"`
	Left    int    `json:"left"`
	Fate    string `json:"fate"`
	Evicted int    `json:"evicted"`
	Fails   bool   `json:"fails"`
	How     string `json:"how"`
}

// Do performs an action.
func (s *poolSys) Do(raw json.RawMessage) error {
	var a poolAct
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	if s.a.rec != nil {
		s.a.rec.reset()
	}

	var err error

	switch a.Op {
	case "open":
		err = s.open(a)
	case "openfails":
		err = s.openFails(a)
	case "read":
		err = s.read(a)
	case "readfails":
		err = s.readFails(a)
	case "close":
		err = s.close(a)
	default:
		h.Die("unknown action %s", raw)
	}

	if err != nil {
		return fmt.Errorf("%s: %w", raw, err)
	}

	if s.a.rec != nil && s.life {
		if len(s.a.rec.bad) > 0 {
			return fmt.Errorf("%s: %s", raw, s.a.rec.bad[0])
		}

		if err := s.census(); err != nil {
			return fmt.Errorf("%s: %w", raw, err)
		}
	}

	return nil
}

// census compares the number of decoders that are not closed with the model's.
func (s *poolSys) census() error {
	want := 0
	for _, m := range s.idle {
		want += len(m)
	}

	for _, hd := range s.handles {
		if hd.s >= 0 {
			want++
		}
	}

	if got := s.a.rec.live(); got != want {
		return fmt.Errorf("%d decoders are not closed, there should be %d", got, want)
	}

	return nil
}

// openFile opens the nth entry either way.
func (s *poolSys) openFile(n int) (io.ReadCloser, error) {
	if s.rng.Intn(2) == 0 {
		return s.r.File[n].Open() //nolint:wrapcheck
	}

	f, err := s.r.Open(s.a.names[n])
	if err != nil {
		return nil, err //nolint:wrapcheck
	}

	return f, nil
}

// openFails opens a file with a decoder that cannot be made or fails.
func (s *poolSys) openFails(a poolAct) error {
	rec := s.a.rec

	if a.How == "create" {
		rec.created = func(*probe) error { return errProbeFails }
	} else {
		rec.failRead = true
	}

	_, err := s.openFile(s.a.first[a.S-1] + a.I - 1)
	rec.created, rec.failRead = nil, false

	if err == nil {
		return errors.New("open succeeded with a decoder that fails")
	}

	var want []*probe

	switch {
	case a.How == "create":
		// Nobody has it.
		for _, p := range rec.opened {
			p.closed = 1
		}
	case a.Fresh:
		want = rec.opened
	default:
		want = append(want, s.idle[a.S-1][a.From])
		delete(s.idle[a.S-1], a.From)
	}

	if made := 0; s.choice {
		if a.Fresh {
			made = 1
		}

		if len(rec.opened) != made {
			return fmt.Errorf("%d decoders were created instead of %d", len(rec.opened), made)
		}
	}

	if s.life && (len(want) != len(rec.closed) || (len(want) == 1 && want[0] != rec.closed[0])) {
		return fmt.Errorf("%d decoders were closed instead of the one that failed%s", len(rec.closed), which(rec.closed, want))
	}

	return nil
}

// readFails reads from a decoder that fails.
func (s *poolSys) readFails(a poolAct) error {
	rec, hd := s.a.rec, s.handles[a.H]
	rec.failRead = true

	_, err := io.Copy(io.Discard, hd.r)
	rec.failRead = false

	if err == nil {
		return errors.New("reading succeeded with a decoder that fails")
	}

	if n, err := hd.r.Read(make([]byte, 3)); n != 0 || err == nil || errors.Is(err, io.EOF) {
		return fmt.Errorf("reading again gives %d, %w", n, err)
	}

	if len(rec.opened)+len(rec.closed) > 0 {
		return errors.New("reading creates or closes a decoder")
	}

	return nil
}

func (s *poolSys) open(a poolAct) error {
	var n int
	if a.S == 0 {
		n = s.a.empties[s.rng.Intn(len(s.a.empties))]
	} else {
		n = s.a.first[a.S-1] + a.I - 1
	}

	r, err := s.openFile(n)
	if err != nil {
		return fmt.Errorf("open failed: %w", err)
	}

	hd := &poolHandle{r: r, s: a.S - 1, i: a.I - 1}
	s.handles[a.H] = hd

	rec := s.a.rec
	if rec == nil || !(s.life || s.choice) {
		return nil
	}

	if a.S == 0 {
		if len(rec.opened)+len(rec.read)+len(rec.closed) > 0 {
			return errors.New("opening an entry without content touches a stream")
		}

		return nil
	}

	if len(rec.closed) > 0 {
		return errors.New("opening a file closes a decoder")
	}

	if !a.Fresh {
		hd.p = s.idle[a.S-1][a.From]
		delete(s.idle[a.S-1], a.From)

		if len(rec.opened) > 0 {
			return fmt.Errorf("a decoder was created although one stands idle at %d", a.From)
		}
	} else {
		if len(rec.opened) != 1 {
			return fmt.Errorf("%d decoders were created instead of one", len(rec.opened))
		}

		hd.p = rec.opened[0]

		if int(hd.p.stream) != a.S-1 {
			return fmt.Errorf("a decoder for stream %d was created", hd.p.stream)
		}
	}

	return s.only(hd)
}

// only checks that no decoder but the handle's was read.
func (s *poolSys) only(hd *poolHandle) error {
	for n := range s.a.rec.read {
		if hd.p == nil || n != hd.p.n {
			return fmt.Errorf("decoder %d was read instead of the one that should be used", n)
		}
	}

	return nil
}

// slack is how far a decoder may be ahead of the file reading from it.
const slack = 64 << 10

func (s *poolSys) read(a poolAct) error {
	hd := s.handles[a.H]

	var all []byte

	first := 0

	if hd.s >= 0 {
		from, to := s.a.off(hd.s, hd.i)
		b := s.a.bounds[hd.s]
		all = s.a.contents[hd.s][b[from]:b[to]]
		// What the model wants read, in bytes.
		first = b[from+(to-from)-a.Left] - b[from]
	}

	eof := a.N < a.M // the model's read hits the end
	want := all[hd.pos:first]

	var (
		got []byte
		err error
	)

	// A stop in between that does not fall on a unit keeps positions of the
	// model, as the rest is read right after.
	switch k := s.rng.Intn(4); {
	case k == 0 && eof:
		var b bytes.Buffer

		_, err = io.Copy(&b, hd.r)
		got = b.Bytes()
	case k == 1 && len(want) > 0:
		var b bytes.Buffer

		_, err = io.CopyN(&b, hd.r, int64(len(want)))
		got = b.Bytes()

		if eof && err == nil {
			err = s.atEOF(hd)
		}
	default:
		got, err = s.readSome(hd, len(want), k == 2)
		if eof && err == nil {
			err = s.atEOF(hd)
		}
	}

	if err != nil {
		return fmt.Errorf("read failed after %d of %d bytes: %w", len(got), len(want), err)
	}

	if !bytes.Equal(got, want) {
		return fmt.Errorf("bytes %d to %d differ (%d bytes read)", hd.pos, hd.pos+len(want), len(got))
	}

	hd.pos += len(want)

	rec := s.a.rec
	if rec == nil || !(s.life || s.choice) {
		return nil
	}

	if len(rec.opened)+len(rec.closed) > 0 && s.choice {
		return errors.New("reading creates or closes decoders")
	}

	if len(rec.closed) > 0 && s.life {
		return errors.New("reading closes a decoder")
	}

	if err := s.only(hd); err != nil {
		return err
	}

	if hd.s >= 0 && len(want) > 0 {
		from, _ := s.a.off(hd.s, hd.i)
		at := int64(s.a.bounds[hd.s][from] + hd.pos)

		if d := hd.p.delivered; d < at || d > at+slack {
			return fmt.Errorf("the decoder has decoded %d bytes, the file needs %d", d, at)
		}
	}

	return nil
}

func (s *poolSys) atEOF(hd *poolHandle) error {
	b := make([]byte, 3)

	n, err := hd.r.Read(b)
	if n != 0 || !errors.Is(err, io.EOF) {
		return fmt.Errorf("%d bytes and error %v at the end of the file", n, err) //nolint:errorlint
	}

	return nil
}

// readSome reads n bytes with buffers of varying sizes.
func (s *poolSys) readSome(hd *poolHandle, n int, small bool) ([]byte, error) {
	out := make([]byte, 0, n)
	idle := 0

	for len(out) < n {
		k := n - len(out)
		if k > 1 && s.rng.Intn(2) == 0 {
			k = 1 + s.rng.Intn(k)
		}

		if small && len(out) < 64 && s.rng.Intn(2) == 0 {
			k = min(k, 1+s.rng.Intn(5))
		}

		m, err := hd.r.Read(out[len(out) : len(out)+k])
		if m < 0 || m > k {
			return out, fmt.Errorf("%d bytes were read into %d", m, k)
		}

		out = out[:len(out)+m]

		if err != nil {
			if errors.Is(err, io.EOF) && len(out) == n {
				return out, nil
			}

			return out, err //nolint:wrapcheck
		}

		if m == 0 {
			if idle++; idle > 1000 {
				return out, errors.New("reading makes no progress")
			}
		} else {
			idle = 0
		}
	}

	return out, nil
}

func (s *poolSys) close(a poolAct) error {
	hd := s.handles[a.H]
	delete(s.handles, a.H)

	rec := s.a.rec
	if rec != nil {
		rec.failClose = a.Fails
	}

	if err := hd.r.Close(); err != nil && !a.Fails {
		return fmt.Errorf("close failed: %w", err)
	}

	if rec == nil || hd.s < 0 {
		return nil
	}

	rec.failClose = false
	closed := len(rec.closed)

	if s.life && (a.Fails || s.rng.Intn(2) == 0) {
		if err := hd.r.Close(); err != nil && !a.Fails {
			return fmt.Errorf("closing again failed: %w", err)
		}

		if len(rec.closed) != closed {
			return errors.New("closing again closes a decoder")
		}
	}

	if len(rec.opened) > 0 || len(rec.read) > 0 {
		return errors.New("closing a file creates or reads a decoder")
	}

	var want []*probe

	switch a.Fate {
	case "kept":
		s.idle[hd.s][a.At] = hd.p

		if a.Evicted >= 0 {
			want = append(want, s.idle[hd.s][a.Evicted])
			delete(s.idle[hd.s], a.Evicted)
		}
	default:
		want = append(want, hd.p)
	}

	if !s.life {
		return nil
	}

	if len(want) != len(rec.closed) || (len(want) == 1 && want[0] != rec.closed[0]) {
		return fmt.Errorf("the decoder should be %s and %d decoders be closed (evicted: %d), closed were %d%s",
			a.Fate, len(want), a.Evicted, len(rec.closed), which(rec.closed, want))
	}

	return nil
}

func which(got, want []*probe) string {
	if len(got) == len(want) {
		return " but not the right one"
	}

	return ""
}

// End closes what is open.
func (s *poolSys) End() error {
	if s.isDone {
		return nil
	}

	s.isDone = true

	for _, hd := range s.handles {
		_ = hd.r.Close()
	}

	if s.life && len(s.a.rec.bad) > 0 {
		return errors.New(s.a.rec.bad[0])
	}

	return nil
}

// poolCmd: pool FILE...  walks over the graphs.
func poolCmd(c *Ctx) {
	prop := h.Env.Property
	quick := h.Env.Quick()

	for _, path := range c.Args {
		g := h.Load(path)

		var cfg poolCfg
		if err := json.Unmarshal(g.Cfg, &cfg); err != nil {
			h.Die("%v", err)
		}

		run := func(chain string, unit int, probed bool, f func(w *h.Walker)) {
			if h.Env.Failed() {
				return
			}

			a := newPoolArchive(cfg, chain, unit, probed)
			w := &h.Walker{
				G: g, Rng: c.Rng, Name: fmt.Sprintf("%s unit %d streams %v", chain, unit, cfg.Streams),
				Ctx: map[string]any{"chain": chain, "unit": unit, "cfg": cfg},
				New: func(json.RawMessage) h.System { return newPoolSys(a, c.Rng) },
			}

			h.Progress(w.Name)
			f(w)
			w.Done()
			h.Env.Sample(map[string]any{"chain": chain, "unit": unit, "cfg": cfg, "walks": w.Walks, "steps": w.Steps})

			if a.rec != nil {
				a.rec.drop()
			}
		}
		random := func(n, l int) func(*h.Walker) {
			return func(w *h.Walker) { w.Random(n, l) }
		}

		switch prop {
		case "C01":
			run("copy", 1, false, (*h.Walker).Cover)

			if cfg.Cap == 2 {
				n := 12
				if !quick {
					n = 150
				}

				for _, ch := range enc.Chains {
					run(ch, 1+c.Rng.Intn(40), false, random(n, 40))
					run(ch, 4097, false, random(n/3, 40))
					run(ch, 70001, false, random(n/6, 25))
				}
			}
		default:
			if !quick || cfg.Cap != 2 {
				run("copy", 1, true, (*h.Walker).Cover)
			}

			run("copy", 70001, true, func(w *h.Walker) {
				w.Random(200, 40)
			})

			run("copy", 3, true, (*h.Walker).Cover)

			for _, ch := range []string{"lzma", "deflate", "bzip2", "lzma2+bcj", "aes+lzma2", "bcj2", "zstd", "lz4", "brotli", "delta4", "ppmd"} {
				n := 15
				if !quick {
					n = 300
				}

				run(ch, 1+c.Rng.Intn(3000), true, random(n, 40))
			}
		}
	}
}
