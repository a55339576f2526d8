package main

import (
	"encoding/binary"
	"errors"
	"io"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"
)

// A probe is a decoder that passes its input on and records what happens to
// it.  Coders with the id of probeID and a recorder's number as properties
// report to that recorder.
var probeID = []byte{0x7f, 0x76, 0x01}

var (
	recorders sync.Map
	recNext   uint64
)

// probe is one decoder.
type probe struct {
	rec       *recorder
	n         int
	stream    uint32
	in        io.ReadCloser
	busy      int32
	delivered int64
	size      uint64
	closed    int32
	err       error
	ended     bool
}

// recorder collects what the decoders of one archive report.
type recorder struct {
	mu     sync.Mutex
	id     uint64
	probes []*probe
	bad    []string
	read   map[int]bool // decoders read since the last reset
	opened []*probe     // decoders created since the last reset
	closed []*probe     // decoders closed since the last reset
	onRead func(p *probe)
	// onClose is called outside of the lock.
	onClose func(p *probe)
	// created is called outside of the lock when a decoder is created and can
	// make that fail.
	created func(p *probe) error
	// failRead makes the next read of a decoder fail.
	failRead bool
	// failClose makes the next decoder that is closed report an error.
	failClose bool
	// strict is set if a decoder must not be read after it failed.
	strict bool
}

func init() {
	sevenzip.RegisterDecompressor(probeID, func(props []byte, size uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		if len(props) != 12 || len(in) != 1 {
			return nil, errors.New("probe: bad properties")
		}

		v, ok := recorders.Load(binary.LittleEndian.Uint64(props))
		if !ok {
			return nil, errors.New("probe: no recorder")
		}

		r := v.(*recorder) //nolint:forcetypeassert

		r.mu.Lock()
		p := &probe{rec: r, n: len(r.probes), stream: binary.LittleEndian.Uint32(props[8:]), in: in[0], size: size}
		r.probes = append(r.probes, p)
		r.opened = append(r.opened, p)
		r.mu.Unlock()

		if r.created != nil {
			if err := r.created(p); err != nil {
				return nil, err
			}
		}

		return p, nil
	})
}

func newRecorder() *recorder {
	r := &recorder{id: atomic.AddUint64(&recNext, 1), read: map[int]bool{}}
	recorders.Store(r.id, r)

	return r
}

func (r *recorder) drop() { recorders.Delete(r.id) }

// props are the properties of a probe for a stream.
func (r *recorder) props(stream int) []byte {
	b := make([]byte, 12)
	binary.LittleEndian.PutUint64(b, r.id)
	binary.LittleEndian.PutUint32(b[8:], uint32(stream)) //nolint:gosec

	return b
}

// reset forgets what happened since the last reset.
func (r *recorder) reset() {
	r.mu.Lock()
	r.read, r.opened, r.closed = map[int]bool{}, nil, nil
	r.mu.Unlock()
}

func (r *recorder) complain(s string) {
	r.mu.Lock()
	if len(r.bad) < 10 {
		r.bad = append(r.bad, s)
	}
	r.mu.Unlock()
}

func (p *probe) Read(b []byte) (int, error) {
	if !atomic.CompareAndSwapInt32(&p.busy, 0, 1) {
		p.rec.complain("a decoder is used by two goroutines at once")
	}
	defer atomic.StoreInt32(&p.busy, 0)

	if atomic.LoadInt32(&p.closed) != 0 {
		p.rec.complain("a decoder is read after it was closed")

		return 0, errors.New("probe: closed")
	}

	if p.rec.strict && p.err != nil {
		p.rec.complain("a decoder is read after it failed")
	}

	p.rec.mu.Lock()
	p.rec.read[p.n] = true
	f := p.rec.onRead
	fail := p.rec.failRead
	p.rec.failRead = false
	p.rec.mu.Unlock()

	if f != nil {
		f(p)
	}

	if fail {
		// Some of it comes with the error.
		n, _ := p.in.Read(b[:len(b)/2])
		p.delivered += int64(n)
		p.err = errProbeFails

		return n, errProbeFails
	}

	n, err := p.in.Read(b)
	p.delivered += int64(n)

	if err != nil {
		p.ended = true
		if !errors.Is(err, io.EOF) {
			p.err = err
		}
	}

	return n, err //nolint:wrapcheck
}

func (p *probe) Close() error {
	if !atomic.CompareAndSwapInt32(&p.busy, 0, 1) {
		p.rec.complain("a decoder is closed while it is read")
	}
	defer atomic.StoreInt32(&p.busy, 0)

	if atomic.AddInt32(&p.closed, 1) != 1 {
		p.rec.complain("a decoder is closed twice")

		return errors.New("probe: closed twice")
	}

	p.rec.mu.Lock()
	p.rec.closed = append(p.rec.closed, p)
	fail := p.rec.failClose
	p.rec.failClose = false
	p.rec.mu.Unlock()

	if f := p.rec.onClose; f != nil {
		f(p)
	}

	if err := p.in.Close(); err != nil || !fail {
		return err //nolint:wrapcheck
	}

	return errCloseFails
}

var (
	errProbeFails = errors.New("probe: does not decode")
	errCloseFails = errors.New("probe: does not close well")
)

// live counts the decoders that are not closed.
func (r *recorder) live() int {
	r.mu.Lock()
	defer r.mu.Unlock()

	n := 0

	for _, p := range r.probes {
		if atomic.LoadInt32(&p.closed) == 0 {
			n++
		}
	}

	return n
}
