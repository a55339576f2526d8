package enc

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"math/bits"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
)

// Words returns n bytes that compress well, made of words that depend on seed.
func Words(n int, seed uint32) []byte {
	b := make([]byte, 0, n+16)
	x := seed*2654435761 + 1

	for len(b) < n {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5

		w := (x >> 7) % 61
		for i := uint32(0); i < 3+w%7; i++ {
			b = append(b, byte('a'+(w*7+i*i*(seed%5+1)+seed)%26))
		}

		b = append(b, byte(' '+x%3))
	}

	return b[:n]
}

// Parts compresses first and then second in one stream with the method, so
// that what comes out before n does not depend on second.  It returns nothing
// for some methods.
func Parts(method string, first, second []byte) (props, packed []byte, n int) {
	var o bytes.Buffer

	type flusher interface {
		Write(b []byte) (int, error)
		Flush() error
		Close() error
	}

	write := func(w flusher, err error) {
		check(err)
		_, err = w.Write(first)
		check(err)
		check(w.Flush())
		n = o.Len()
		_, err = w.Write(second)
		check(err)
		check(w.Close())
	}

	switch method {
	case "deflate":
		write(flate.NewWriter(&o, 6))
	case "brotli", "brraw":
		write(brotli.NewWriterOptions(&o, brotli.WriterOptions{Quality: 5, LGWin: 16}), nil)

		if method == "brotli" {
			return nil, append(brotliHead(o.Len()), o.Bytes()...), n + 16
		}
	case "zstd":
		write(zstd.NewWriter(&o, zstd.WithEncoderConcurrency(1), zstd.WithEncoderCRC(false),
			zstd.WithSingleSegment(false), zstd.WithWindowSize(1<<16)))
	case "lzma2":
		w, err := lzma.Writer2Config{DictCap: 1 << 16}.NewWriter2(&o)
		write(w, err)

		props = []byte{8}
	case "lz4":
		w := lz4.NewWriter(&o)
		write(w, w.Apply(lz4.BlockSizeOption(lz4.Block64Kb)))
	default:
		return nil, nil, 0
	}

	return props, o.Bytes(), n
}

func brotliHead(n int) []byte {
	h := make([]byte, 16)
	binary.LittleEndian.PutUint32(h, 0x184d2a50)
	binary.LittleEndian.PutUint32(h[4:], 8)
	binary.LittleEndian.PutUint32(h[8:], uint32(n))
	h[12], h[13], h[14] = 'B', 'R', 1

	return h
}

// Later returns the stream that Parts does without the part that stands for
// first: one that refers to what was before its beginning.
func Later(method string, first, second []byte) (props, packed []byte) {
	if method == "lz4" {
		return nil, lz4Later(second)
	}

	props, b, n := Parts(method, first, second)

	switch method {
	case "brotli", "brraw":
		// the window and an empty piece of metadata
		packed = append([]byte{0x0c}, b[n:]...)
		if method == "brotli" {
			packed = append(brotliHead(len(packed)), packed...)
		}

		return nil, packed
	case "zstd":
		// the header of the frame: magic, descriptor, window
		if b[4]&0x20 != 0 || b[4]&3 != 0 || b[4]>>6 != 0 {
			panic("zstd: an unexpected frame header")
		}

		return nil, append(append([]byte(nil), b[:6]...), b[n:]...)
	}

	return props, b[n:]
}

// lz4Later is a frame of blocks that refer to earlier ones, made of a match
// with what was before the beginning.
func lz4Later(tail []byte) []byte {
	b := []byte{0x04, 0x22, 0x4d, 0x18, 0x40, 0x40}
	b = append(b, byte(xxh32(b[4:])>>8))

	// four bytes as they are, a long match far away, and the end
	block := []byte{0x4f, 'a', 'b', 'c', 'd', 0x88, 0x13, 0xff, 0xff, 10}
	block = append(block, 0xc0)
	block = append(block, tail[:12]...)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(block)))
	b = append(b, block...)

	return binary.LittleEndian.AppendUint32(b, 0)
}

// xxh32 is the hash of fewer than 4 bytes.
func xxh32(b []byte) uint32 {
	const p1, p2, p3, p5 = 2654435761, 2246822519, 3266489917, 374761393

	h := uint32(p5) + uint32(len(b))

	for _, x := range b {
		h = bits.RotateLeft32(h+uint32(x)*p5, 11) * p1
	}

	h ^= h >> 15
	h *= p2
	h ^= h >> 13
	h *= p3

	return h ^ h>>16
}
