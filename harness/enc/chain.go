package enc

import (
	_ "embed"
	"fmt"
	"strings"
	"verif/sz"
)

//go:embed data/ppmd.bin
var ppmdPacked []byte

// PPMDContent is the only content there is a PPMd stream for.
//
//go:embed data/ppmd.txt
var PPMDContent []byte

// Step is one coder of a chain with one input.
type Step struct {
	ID   []byte
	Make func(content []byte) (props, packed []byte)
}

func plain(f func([]byte) []byte) func([]byte) ([]byte, []byte) {
	return func(b []byte) ([]byte, []byte) { return nil, f(b) }
}

// Same returns b.
func Same(b []byte) []byte { return b }

// Password is what the AES steps of chains use.
const Password = "pässwörd"

// Steps are the coders with one input by name.
var Steps = map[string]Step{
	"copy":    {sz.Copy, plain(Same)},
	"deflate": {sz.Deflate, plain(Deflate)},
	"bzip2":   {sz.Bzip2, plain(Bzip2)},
	"lzma":    {sz.LZMA, LZMA},
	"lzma2":   {sz.LZMA2, LZMA2},
	"zstd":    {sz.Zstd, plain(Zstd)},
	"brotli":  {sz.Brotli, plain(Brotli)},
	"brraw":   {sz.Brotli, plain(BrotliRaw)},
	"lz4":     {sz.LZ4, plain(LZ4)},
	"delta1":  {sz.Delta, func(b []byte) ([]byte, []byte) { return []byte{0}, Delta(b, 1) }},
	"delta4":  {sz.Delta, func(b []byte) ([]byte, []byte) { return []byte{3}, Delta(b, 4) }},
	"delta256": {sz.Delta, func(b []byte) ([]byte, []byte) {
		return []byte{255}, Delta(b, 256)
	}},
	"bcj":   {sz.BCJ, plain(X86)},
	"arm":   {sz.ARM, plain(ARM)},
	"arm64": {sz.ARM64, plain(ARM64)},
	"ppc":   {sz.PPC, plain(PPC)},
	"sparc": {sz.SPARC, plain(SPARC)},
	"aes": {sz.AES, func(b []byte) ([]byte, []byte) {
		return AES(b, Password, []byte("salt"), []byte("0123456789abcdef"), 3)
	}},
}

// Chain builds a folder whose coders are the named steps, joined by "+" in the
// order in which they decode.  Two names stand for graphs: "bcj2" (four plain
// packed streams) and "bcj2lz" (7-Zip's default for executables).
func Chain(name string, content []byte) sz.Folder {
	switch name {
	case "bcj2":
		return bcj2(content, "copy", "copy", "copy")
	case "bcj2lz":
		return bcj2(content, "lzma", "lzma", "lzma2")
	case "ppmd":
		if string(content) != string(PPMDContent) {
			panic("ppmd: only one content")
		}

		return sz.Single(sz.PPMD, []byte{6, 0, 0, 16, 0}, ppmdPacked, len(content))
	}

	return Linear(strings.Split(name, "+"), content)
}

// Linear builds a chain of coders with one input each.
func Linear(names []string, content []byte) sz.Folder {
	f := sz.Folder{Coders: make([]sz.Coder, len(names)), Packed: []uint64{0}}
	cur := content

	for i := len(names) - 1; i >= 0; i-- {
		st, ok := Steps[names[i]]
		if !ok {
			panic(fmt.Sprint("no step ", names[i]))
		}

		props, packed := st.Make(cur)
		f.Coders[i] = sz.Coder{ID: st.ID, Props: props, Size: uint64(len(cur))}
		cur = packed

		if i > 0 {
			f.Binds = append(f.Binds, sz.Bind{In: uint64(i), Out: uint64(i - 1)})
		}
	}

	f.Streams = [][]byte{cur}

	return f
}

func bcj2(content []byte, main, call, jump string) sz.Folder {
	s := BCJ2(content, func(pos int) bool { return pos%3 != 0 })

	// coders: jump, call, main, bcj2; inputs of bcj2 are 3, 4, 5 and 6
	f := sz.Folder{}

	for i, n := range []string{jump, call, main} {
		in := s[2-i]
		props, packed := Steps[n].Make(in)
		f.Coders = append(f.Coders, sz.Coder{ID: Steps[n].ID, Props: props, Size: uint64(len(in))})
		f.Streams = append([][]byte{packed}, f.Streams...)
	}

	f.Coders = append(f.Coders, sz.Coder{ID: sz.BCJ2, In: 4, Size: uint64(len(content))})
	f.Binds = []sz.Bind{{In: 5, Out: 0}, {In: 4, Out: 1}, {In: 3, Out: 2}}
	f.Packed = []uint64{2, 1, 0, 6}
	f.Streams = append(f.Streams, s[3])

	return f
}

// WithTop adds a coder with one input that passes its input on as the last one
// to decode.
func WithTop(f sz.Folder, id, props []byte) sz.Folder {
	var in, out uint64
	for _, c := range f.Coders {
		in += max(c.In, 1)
		out += max(c.Out, 1)
	}

	last := f.Coders[len(f.Coders)-1]
	f.Coders = append(append([]sz.Coder(nil), f.Coders...), sz.Coder{ID: id, Props: props, Size: last.Size})
	f.Binds = append(append([]sz.Bind(nil), f.Binds...), sz.Bind{In: in, Out: out - 1})

	return f
}

// WithBottom adds a coder with one input that passes its input on as the first
// one to decode, before the coder that reads the only packed stream.
func WithBottom(f sz.Folder, id, props []byte) sz.Folder {
	if len(f.Packed) != 1 {
		panic("more than one packed stream")
	}

	b := sz.Coder{ID: id, Props: props, Size: uint64(len(f.Streams[0]))}
	f.Coders = append([]sz.Coder{b}, f.Coders...)
	binds := []sz.Bind{{In: f.Packed[0] + 1, Out: 0}}

	for _, p := range f.Binds {
		binds = append(binds, sz.Bind{In: p.In + 1, Out: p.Out + 1})
	}

	f.Binds = binds
	f.Packed = []uint64{0}

	return f
}

// Chains lists the chains that cover every method.
var Chains = []string{
	"copy", "deflate", "bzip2", "lzma", "lzma2", "zstd", "brotli", "brraw", "lz4", "delta1", "delta4", "delta256",
	"bcj", "arm", "arm64", "ppc", "sparc", "aes", "bcj2", "bcj2lz", "ppmd",
	"lzma2+bcj", "aes+lzma2", "aes+lzma+delta4", "aes+bzip2+arm", "deflate+delta256", "zstd+ppc", "lz4+arm64",
	"brotli+sparc", "aes+copy", "aes+deflate+bcj", "copy+copy", "aes+zstd",
}

// Encrypted tells whether a chain needs Password.
func Encrypted(chain string) bool { return strings.Contains(chain, "aes") }
