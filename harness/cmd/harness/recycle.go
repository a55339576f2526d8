package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() {
	commands["recycle"] = recycleCmd
	commands["recycleref"] = recycleRefCmd
	commands["recyclemix"] = recycleMixCmd
}

// The method of a decoder that gives away the one below it.
var captureID = []byte{0x7f, 0x63, 0x61}

// The method of a decoder that cannot be closed the first time.
var stuckID = []byte{0x7f, 0x63, 0x62}

var errStuck = errors.New("cannot be closed yet")

type stuck struct {
	io.ReadCloser
	tried bool
}

func (s *stuck) Close() error {
	if !s.tried {
		s.tried = true

		return errStuck
	}

	return s.ReadCloser.Close() //nolint:wrapcheck
}

var (
	captures    sync.Map
	captureNext atomic.Uint64
	captureOnce sync.Once

	recycleForgotten atomic.Int64
)

func captureRegister() {
	captureOnce.Do(func() {
		sevenzip.RegisterDecompressor(stuckID, func(_ []byte, _ uint64, r []io.ReadCloser) (io.ReadCloser, error) {
			return &stuck{ReadCloser: r[0]}, nil
		})
		sevenzip.RegisterDecompressor(captureID, func(p []byte, _ uint64, r []io.ReadCloser) (io.ReadCloser, error) {
			captures.Store(binary.BigEndian.Uint64(p), r[0])

			return r[0], nil
		})
	})
}

// recycleFolder is a stream of the kind.
//
//nolint:cyclop
func recycleFolder(method, kind string) (f sz.Folder, content []byte) {
	good := enc.Words(9000, 3)
	other := append(enc.Words(700, 11), pattern(900, 4)...)

	if strings.Contains(method, "ppmd") {
		good, other = enc.PPMDContent, enc.PPMDContent

		if kind == "empty" {
			kind = "good"
		}
	}

	switch kind {
	case "good", "cut", "bad", "stuck":
		content = good
	case "other", "later", "noise":
		content = other
	}

	f = enc.Chain(method, content)
	p := f.Streams[0]

	if kind == "cut" || kind == "bad" {
		// some of it is all right
		if props, b, n := enc.Parts(method, content[:6000], content[6000:]); b != nil {
			f.Coders[0].Props = props
			p = b

			if kind == "cut" {
				p = p[:n+(len(p)-n)/2]
			} else {
				for i := n + 5; i < len(p); i += 2 {
					p[i] ^= 0x5a
				}
			}

			f.Streams[0] = p

			return f, content
		}
	}

	switch kind {
	case "stuck":
		return enc.WithBottom(f, stuckID, nil), content
	case "cut":
		p = p[:len(p)/2]
	case "bad":
		p = append([]byte(nil), p...)
		for i := 0; i < 3; i++ {
			p[len(p)/2+i] ^= 0x5a
		}
	case "noise":
		p = append([]byte(nil), p...)
		for i := min(20, len(p)/3); i < len(p); i++ {
			p[i] = byte(i*i*7 + i)
		}
	case "later":
		if props, b := enc.Later(method, good, append(append([]byte(nil), good[2000:5000]...), other...)); b != nil {
			f.Coders[0].Props = props
			f.Coders[0].Size = uint64(3000 + len(other))
			p = b
		} else {
			p = p[len(p)/3:]
		}
	}

	f.Streams[0] = p

	return f, content
}

// recycleStream is what a stream decodes to alone.
type recycleStream struct {
	Data []byte
	// How it ends: not at all, with io.EOF or with an error.
	End string
	// What stopped it from being opened.
	Open string
	arch func() ([]byte, uint64)
}

func newRecycleStream(method, kind string) *recycleStream {
	f, content := recycleFolder(method, kind)

	if kind == "good" || kind == "other" || kind == "stuck" {
		f.Subs = []sz.Sub{{Size: uint64(len(content)), CRC: sz.CRC(content)}}
	} else {
		f.Subs = []sz.Sub{{Size: f.Coders[len(f.Coders)-1].Size}}
	}

	return &recycleStream{arch: func() ([]byte, uint64) {
		k := captureNext.Add(1)
		a := sz.Archive{
			Folders: []sz.Folder{enc.WithTop(f, captureID, binary.BigEndian.AppendUint64(nil, k))},
			Files:   []sz.File{{Name: "file"}},
		}

		return a.Bytes(), k
	}}
}

// open returns the decoder of the stream.
func (s *recycleStream) open() (io.ReadCloser, error) {
	b, k := s.arch()

	r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), enc.Password)
	if err != nil {
		h.Die("%v", err)
	}

	rc, err := r.File[0].Open()
	if err != nil {
		return nil, err //nolint:wrapcheck
	}

	v, ok := captures.LoadAndDelete(k)
	if !ok {
		h.Die("no decoder")
	}

	_ = rc // never closed: that would close the decoder

	return v.(io.ReadCloser), nil //nolint:forcetypeassert
}

func recycleEnd(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, io.EOF):
		return "eof"
	}

	return "error"
}

const (
	recycleSome = 1500
	recycleMost = 50000
)

// recycleRead reads up to n bytes.
func recycleRead(r io.Reader, n int) (b []byte, end string) {
	b = make([]byte, n)
	at, idle := 0, 0

	for at < n {
		m, err := r.Read(b[at:])
		at += m

		if err != nil {
			return b[:at], recycleEnd(err)
		}

		if m == 0 {
			if idle++; idle > 1000 {
				return b[:at], "idle"
			}
		}
	}

	return b, ""
}

// recycleRefCmd decodes one stream, in a process of its own.
func recycleRefCmd(c *Ctx) {
	captureRegister()

	s := newRecycleStream(c.Arg(0), c.Arg(1))

	if r, err := s.open(); err != nil {
		s.Open = recycleEnd(err)
	} else {
		var more []byte

		s.Data, s.End = recycleRead(r, recycleSome)
		if s.End == "" {
			more, s.End = recycleRead(r, recycleMost)
			s.Data = append(s.Data, more...)
		}
	}

	b, err := json.Marshal(s)
	if err != nil {
		h.Die("%v", err)
	}

	fmt.Println(base64.StdEncoding.EncodeToString(b))
}

func recycleRef(method, kind string) *recycleStream {
	exe, err := os.Executable()
	if err != nil {
		h.Die("%v", err)
	}

	out, err := exec.Command(exe, "recycleref", method, kind).Output() //nolint:gosec,noctx
	if err != nil {
		h.Die("recycleref %s %s: %v", method, kind, err)
	}

	b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(string(out)))
	if err != nil {
		h.Die("%v", err)
	}

	s := newRecycleStream(method, kind)
	if err := json.Unmarshal(b, s); err != nil {
		h.Die("%v", err)
	}

	_, content := recycleFolder(method, kind)

	if kind == "good" || kind == "other" || kind == "stuck" {
		if s.Open != "" || s.End == "error" || !bytes.HasPrefix(s.Data, content) || len(s.Data) != len(content) {
			h.Env.Fail("alone "+method, fmt.Sprintf("%s: %s alone decodes to %d bytes, ends with %q and opens with %q",
				method, kind, len(s.Data), s.End, s.Open), nil)
		}
	}

	h.Env.Sample(map[string]any{"method": method, "stream": kind, "alone": len(s.Data), "ends": s.End, "opens": s.Open})

	return s
}

// recycleHandle is a decoder in use.
type recycleHandle struct {
	s      *recycleStream
	r      io.ReadCloser
	at     int
	end    string
	closed bool
	// closing failed
	stuck bool
}

func (hd *recycleHandle) open() error {
	r, err := hd.s.open()
	if got := recycleEnd(err); got != hd.s.Open {
		return fmt.Errorf("opening gives %v, alone it is %q", err, hd.s.Open)
	}

	hd.r = r

	return nil
}

func (hd *recycleHandle) read(n int) error {
	if hd.r == nil || hd.end != "" {
		return nil
	}

	b, end := recycleRead(hd.r, n)
	if hd.at+len(b) > len(hd.s.Data) {
		return fmt.Errorf("%d bytes more than the %d that it decodes to alone: %.300q", hd.at+len(b)-len(hd.s.Data), len(hd.s.Data), b)
	}

	if want := hd.s.Data[hd.at : hd.at+len(b)]; !bytes.Equal(b, want) {
		return fmt.Errorf("other bytes at %d than alone: %s", hd.at, differ(b, want))
	}

	hd.at += len(b)
	hd.end = end

	if end != "" && (end != hd.s.End || hd.at != len(hd.s.Data)) {
		return fmt.Errorf("ends with %q after %d bytes, alone with %q after %d", end, hd.at, hd.s.End, len(hd.s.Data))
	}

	return nil
}

func (hd *recycleHandle) close() error {
	hd.closed = true

	if hd.r == nil {
		return nil
	}

	err := hd.r.Close()
	hd.stuck = err != nil

	if err != nil && hd.s.End != "error" && hd.s.Open == "" {
		return fmt.Errorf("closing: %w", err)
	}

	return nil
}

// late uses the decoder once more.
func (hd *recycleHandle) late(op string) error {
	if hd.r == nil {
		return nil
	}

	if op == "lateclose" {
		_ = hd.r.Close()

		return nil
	}

	b := make([]byte, 50)
	if n, err := hd.r.Read(b); (n != 0 || err == nil) && !hd.stuck {
		return fmt.Errorf("closed, and %d bytes are read with error %w: %x", n, err, b[:min(n, 20)])
	}

	return nil
}

type recycleSys struct {
	streams map[string]*recycleStream
	hs      map[int]*recycleHandle
}

func (s *recycleSys) Do(raw json.RawMessage) error {
	var a struct {
		Op, K, To string
		H         int
	}
	if err := json.Unmarshal(raw, &a); err != nil {
		h.Die("%v", err)
	}

	var err error

	switch a.Op {
	case "open":
		hd := &recycleHandle{s: s.streams[a.K]}
		s.hs[a.H] = hd
		err = hd.open()
	case "read":
		n := recycleSome
		if a.To == "end" {
			n = recycleMost
		}

		err = s.hs[a.H].read(n)
	case "close":
		err = s.hs[a.H].close()
	case "closefails":
		hd := s.hs[a.H]
		if hd.r == nil {
			break
		}

		if err = hd.r.Close(); err == nil {
			err = errors.New("closing succeeds although what is below cannot be closed")
		} else if errors.Is(err, errStuck) {
			err = nil
		}
	case "forget":
		delete(s.hs, a.H)

		// Decoders are large and wait for their finalizers.
		if recycleForgotten.Add(1)%256 == 0 {
			runtime.GC()
		}
	default:
		err = s.hs[a.H].late(a.Op)
	}

	if err != nil {
		return fmt.Errorf("%s: %w", raw, err)
	}

	return nil
}

func (s *recycleSys) End() error {
	for _, hd := range s.hs {
		if !hd.closed {
			_ = hd.close()
		}
	}

	return nil
}

var recycleKinds = []string{"good", "other", "cut", "bad", "later", "noise", "empty", "stuck"}

func recycleStreams(method string) map[string]*recycleStream {
	m := map[string]*recycleStream{}
	for _, k := range recycleKinds {
		m[k] = recycleRef(method, k)
	}

	return m
}

// recycleCmd replays the histories of one method.
func recycleCmd(c *Ctx) {
	captureRegister()

	debug.SetMemoryLimit(2 << 30)

	method := os.Getenv("VERIF_METHOD")
	streams := recycleStreams(method)

	for i, path := range c.Args {
		g := h.Load(path)
		w := &h.Walker{
			G: g, Rng: c.Rng, Name: fmt.Sprintf("%s, %d states", method, len(g.States)),
			Ctx: map[string]any{"method": method}, MaxLen: 200,
			New: func(json.RawMessage) h.System { return &recycleSys{streams, map[int]*recycleHandle{}} },
		}

		if i == 0 || os.Getenv("VERIF_COVER") != "" {
			w.Cover()
		}

		w.Random(100, 150)
		w.Done()
	}
}

// recycleMixCmd runs histories of all methods at once.
func recycleMixCmd(c *Ctx) {
	captureRegister()

	debug.SetMemoryLimit(4 << 30)

	methods := strings.Split(os.Getenv("VERIF_METHODS"), ",")
	all := map[string]map[string]*recycleStream{}

	for _, m := range methods {
		all[m] = recycleStreams(m)
	}

	graphs := make([]*h.Graph, len(c.Args))
	for i, path := range c.Args {
		graphs[i] = h.Load(path)
	}

	n := 400
	if !h.Env.Quick() {
		n = 20000
	}

	h.Parallel(n, func(i int) {
		m := methods[i%len(methods)]
		g := graphs[i/len(methods)%len(graphs)]
		w := &h.Walker{
			G: g, Rng: rand.New(rand.NewSource(c.Seed*92821 + int64(i))), Name: "all at once, " + m, //nolint:gosec
			Ctx: map[string]any{"method": m, "number": i},
			New: func(json.RawMessage) h.System { return &recycleSys{all[m], map[int]*recycleHandle{}} },
		}

		w.Random(1, 150)
		w.Done()
	})
}
