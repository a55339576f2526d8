package enc

import (
	"bytes"
	"compress/bzip2"
	"encoding/binary"
	"io"
	"strings"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/flate"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/stangelandcl/ppmd"
	"github.com/ulikunitz/xz/lzma"
	"verif/sz"
)

// Decodable tells how many bytes of a chain's content can be decoded from the
// beginning of its packed stream, from lo to hi.
func Decodable(chain string, f *sz.Folder, packed []byte) (lo, hi int) {
	total := int(f.Coders[len(f.Coders)-1].Size) //nolint:gosec

	switch chain {
	case "bcj2", "bcj2lz":
		return 0, total
	}

	cur := packed
	lag := 0

	for i, name := range strings.Split(chain, "+") {
		c := f.Coders[i]
		n := 0

		switch name {
		case "copy", "delta1", "delta4", "delta256":
			n = len(cur)
		case "bcj", "arm", "arm64", "ppc", "sparc":
			n = len(cur)
			lag += 5
		case "aes":
			n = len(cur) / 16 * 16
		default:
			// Only the first of several can be counted exactly
			cur = decode(name, c.Props, int(c.Size), cur) //nolint:gosec
			n = len(cur)
		}

		n = min(n, int(c.Size)) //nolint:gosec

		if name == "aes" {
			cur = decrypt(c.Props, cur[:len(cur)/16*16])
		}

		cur = cur[:min(n, len(cur))]
	}

	// The error may come together with the last byte.
	return max(0, len(cur)-lag-1), len(cur)
}

func decode(name string, props []byte, size int, in []byte) []byte {
	var (
		r   io.Reader
		err error
	)

	b := bytes.NewReader(in)

	switch name {
	case "deflate":
		r = flate.NewReader(b)
	case "bzip2":
		r = bzip2.NewReader(b)
	case "lzma":
		h := append([]byte(nil), props...)
		h = binary.LittleEndian.AppendUint64(h, uint64(size)) //nolint:gosec
		r, err = lzma.NewReader(io.MultiReader(bytes.NewReader(h), b))
	case "lzma2":
		r, err = lzma.Reader2Config{DictCap: 1 << 16}.NewReader2(b)
	case "zstd":
		r, err = zstd.NewReader(b)
	case "brotli":
		if len(in) < 16 {
			return nil
		}

		_, _ = b.Seek(16, io.SeekStart)
		r = brotli.NewReader(b)
	case "brraw":
		r = brotli.NewReader(b)
	case "ppmd":
		return decodePPMD(props, size, in)
	case "lz4":
		r = lz4.NewReader(b)
	default:
		panic("no decoder for " + name)
	}

	if err != nil {
		return nil
	}

	// Byte by byte, so that nothing is lost with an error.
	var out []byte

	one := make([]byte, 1)

	for zero := 0; zero < 100 && len(out) < size; {
		n, err := r.Read(one)
		out = append(out, one[:n]...)

		if err != nil {
			break
		}

		if n == 0 {
			zero++
		}
	}

	return out
}

type ppmdInput struct {
	*bytes.Reader
	ended bool
}

func (p *ppmdInput) Read(b []byte) (int, error) {
	n, err := p.Reader.Read(b)
	p.ended = p.ended || err != nil

	return n, err //nolint:wrapcheck
}

func decodePPMD(props []byte, size int, in []byte) (out []byte) {
	p := &ppmdInput{Reader: bytes.NewReader(in)}

	r, err := ppmd.NewH7zReader(p, int(props[0]), int(binary.LittleEndian.Uint32(props[1:])), size)
	if err != nil {
		return nil
	}

	one := make([]byte, 1)

	for len(out) < size {
		if _, err := r.Read(one); err != nil || p.ended {
			break
		}

		out = append(out, one[0])
	}

	return out
}
