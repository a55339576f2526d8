// Package sz writes 7-Zip archives.  It is the harness's own encoder: it never
// calls the code under test, so that what the code under test reads back can
// be compared with what the model asked to be written.
package sz

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"unicode/utf16"
)

// Property ids of the 7z header.
const (
	IDEnd             = 0x00
	IDHeader          = 0x01
	IDArchiveProps    = 0x02
	IDAdditional      = 0x03
	IDMainStreams     = 0x04
	IDFilesInfo       = 0x05
	IDPackInfo        = 0x06
	IDUnpackInfo      = 0x07
	IDSubStreams      = 0x08
	IDSize            = 0x09
	IDCRC             = 0x0a
	IDFolder          = 0x0b
	IDCodersUnpack    = 0x0c
	IDNumUnpackStream = 0x0d
	IDEmptyStream     = 0x0e
	IDEmptyFile       = 0x0f
	IDAnti            = 0x10
	IDName            = 0x11
	IDCTime           = 0x12
	IDATime           = 0x13
	IDMTime           = 0x14
	IDAttr            = 0x15
	IDComment         = 0x16
	IDEncodedHeader   = 0x17
	IDStartPos        = 0x18
	IDDummy           = 0x19
)

// Method ids.
var (
	Copy    = []byte{0x00}
	Delta   = []byte{0x03}
	LZMA    = []byte{0x03, 0x01, 0x01}
	BCJ     = []byte{0x03, 0x03, 0x01, 0x03}
	BCJ2    = []byte{0x03, 0x03, 0x01, 0x1b}
	PPC     = []byte{0x03, 0x03, 0x02, 0x05}
	ARM     = []byte{0x03, 0x03, 0x05, 0x01}
	SPARC   = []byte{0x03, 0x03, 0x08, 0x05}
	Deflate = []byte{0x04, 0x01, 0x08}
	Bzip2   = []byte{0x04, 0x02, 0x02}
	Zstd    = []byte{0x04, 0xf7, 0x11, 0x01}
	Brotli  = []byte{0x04, 0xf7, 0x11, 0x02}
	LZ4     = []byte{0x04, 0xf7, 0x11, 0x04}
	AES     = []byte{0x06, 0xf1, 0x07, 0x01}
	ARM64   = []byte{0x0a}
	LZMA2   = []byte{0x21}
	PPMD    = []byte{0x03, 0x04, 0x01}
)

// Coder is one coder of a folder.
type Coder struct {
	ID    []byte
	In    uint64 // 0 means 1
	Out   uint64 // 0 means 1
	Props []byte
	Size  uint64 // unpack size of its (first) output stream
	Long  bool   // always write the stream counts
}

// Bind connects the input stream In to the output stream Out.
type Bind struct{ In, Out uint64 }

// Folder is one folder ("stream" in the API's words).
type Folder struct {
	Coders  []Coder
	Binds   []Bind
	Packed  []uint64 // input indices fed by packed streams
	Streams [][]byte // the packed bytes, in order of Packed
	Lens    []uint64 // how long the packed streams are, if they are not written
	CRC     *uint32  // digest in the unpack info
	Subs    []Sub    // the files stored in it
}

// Sub is one sub stream.
type Sub struct {
	Size uint64
	CRC  *uint32
}

// File is one entry of the files info.
type File struct {
	Name                string
	Empty               bool // has no stream
	EmptyFile           bool // and is a file rather than a directory
	CTime, ATime, MTime *uint64
	Attr                *uint32
}

// Archive is what is written.
type Archive struct {
	Prefix  []byte // bytes before the signature
	PackPos uint64
	Folders []Folder
	Files   []File

	NoSubStreams  bool // leave the sub streams info out
	NoNumUnpack   bool // leave the counts out although sub streams info is written
	AllCounts     bool // write the counts even if they are all one
	AllSizes      bool // write the sizes even if there are none
	Long          int  // write numbers with that many more bytes than they need
	PackHoles     uint // pack streams without a digest, as a bit mask
	NoFiles       bool
	NoNames       bool
	PackCRC       bool         // write pack stream digests too
	Dummy         int          // bytes of kDummy padding before the names
	AttrAllSlow   bool         // write explicit bit vectors even when all are defined
	Gap           int          // unused bytes after the packed streams
	FilesInfo     func(b *Buf) // writes the files info in place of Files
	Encoded       *Folder      // how the header is encoded (Streams etc. filled by EncodeHeader)
	EncodeHeader  func(h []byte) Folder
	Trailer       []byte // bytes after the header
	HeaderTrailer []byte // bytes after the header inside of the header's declared size
}

// U32 returns a pointer to v.
func U32(v uint32) *uint32 { return &v }

// U64 returns a pointer to v.
func U64(v uint64) *uint64 { return &v }

// CRC returns a pointer to the checksum of b.
func CRC(b []byte) *uint32 { return U32(crc32.ChecksumIEEE(b)) }

// Buf is a byte buffer with the number formats of the 7z header.
type Buf struct {
	bytes.Buffer
	Long int
}

// B writes raw bytes.
func (b *Buf) B(v ...byte) { b.Write(v) }

// N writes a 7z number in its shortest form, or one that is b.Long bytes longer.
func (b *Buf) N(v uint64) {
	s := Num(v)
	b.Write(NumLen(v, min(8, len(s)-1+b.Long)))
}

// Num encodes a 7z number in its shortest form.
func Num(v uint64) []byte {
	n := 0
	for ; n < 8; n++ {
		if v < uint64(1)<<uint(7*(n+1)) {
			break
		}
	}

	return NumLen(v, n)
}

// NumLen encodes v with exactly n extra bytes (0 to 8).
func NumLen(v uint64, n int) []byte {
	var first byte
	for i := 0; i < n; i++ {
		first |= 0x80 >> uint(i)
	}

	out := make([]byte, 0, 9)
	if n < 7 {
		first |= byte(v >> uint(8*n))
	}

	out = append(out, first)
	for i := 0; i < n; i++ {
		out = append(out, byte(v>>uint(8*i)))
	}

	return out
}

// U4 writes a little-endian uint32.
func (b *Buf) U4(v uint32) { _ = binary.Write(&b.Buffer, binary.LittleEndian, v) }

// U8 writes a little-endian uint64.
func (b *Buf) U8(v uint64) { _ = binary.Write(&b.Buffer, binary.LittleEndian, v) }

// Bits writes a bit vector.
func (b *Buf) Bits(v []bool) {
	var cur, mask byte = 0, 0x80
	for _, x := range v {
		if x {
			cur |= mask
		}

		mask >>= 1
		if mask == 0 {
			b.B(cur)
			cur, mask = 0, 0x80
		}
	}

	if mask != 0x80 {
		b.B(cur)
	}
}

// OptBits writes a bit vector with its all-defined prefix.
func (b *Buf) OptBits(v []bool, slow bool) {
	all := true
	for _, x := range v {
		all = all && x
	}

	if all && !slow {
		b.B(1)

		return
	}

	b.B(0)
	b.Bits(v)
}

func digests(b *Buf, d []*uint32, slow bool) {
	def := make([]bool, len(d))
	for i := range d {
		def[i] = d[i] != nil
	}

	b.OptBits(def, slow)

	for _, p := range d {
		if p != nil {
			b.U4(*p)
		}
	}
}

func anyDigest(d []*uint32) bool {
	for _, p := range d {
		if p != nil {
			return true
		}
	}

	return false
}

// WriteFolder writes one folder.
func WriteFolder(b *Buf, f *Folder) {
	b.N(uint64(len(f.Coders)))

	var in uint64

	for _, c := range f.Coders {
		ci, co := max(c.In, 1), max(c.Out, 1)
		in += ci
		flag := byte(len(c.ID))

		complex := ci != 1 || co != 1 || c.Long
		if complex {
			flag |= 0x10
		}

		if len(c.Props) > 0 {
			flag |= 0x20
		}

		b.B(flag)
		b.Write(c.ID)

		if complex {
			b.N(ci)
			b.N(co)
		}

		if len(c.Props) > 0 {
			b.N(uint64(len(c.Props)))
			b.Write(c.Props)
		}
	}

	for _, p := range f.Binds {
		b.N(p.In)
		b.N(p.Out)
	}

	if len(f.Packed) > 1 {
		for _, p := range f.Packed {
			b.N(p)
		}
	}
}

// WriteStreams writes a streams info.
func WriteStreams(b *Buf, a *Archive, folders []Folder, pos uint64, sub bool) {
	streams(b, a, folders, pos, sub)
}

func streams(b *Buf, a *Archive, folders []Folder, pos uint64, sub bool) {
	var (
		packed [][]byte
		lens   []uint64
	)

	for _, f := range folders {
		packed = append(packed, f.Streams...)

		for _, s := range f.Streams {
			lens = append(lens, uint64(len(s)))
		}

		lens = append(lens, f.Lens...)
	}

	if len(lens) > 0 {
		b.B(IDPackInfo)
		b.N(pos)
		b.N(uint64(len(lens)))
		b.B(IDSize)

		for _, l := range lens {
			b.N(l)
		}

		if a.PackCRC {
			b.B(IDCRC)

			d := make([]*uint32, len(packed))
			for i := range d {
				if a.PackHoles>>uint(i%32)&1 == 0 {
					d[i] = CRC(packed[i])
				}
			}

			digests(b, d, a.AttrAllSlow)
		}

		b.B(IDEnd)
	}

	if len(folders) > 0 {
		b.B(IDUnpackInfo, IDFolder)
		b.N(uint64(len(folders)))
		b.B(0)

		for i := range folders {
			WriteFolder(b, &folders[i])
		}

		b.B(IDCodersUnpack)

		for _, f := range folders {
			for _, c := range f.Coders {
				for j := uint64(0); j < max(c.Out, 1); j++ {
					b.N(c.Size)
				}
			}
		}

		d := make([]*uint32, len(folders))
		for i := range folders {
			d[i] = folders[i].CRC
		}

		if anyDigest(d) {
			b.B(IDCRC)
			digests(b, d, a.AttrAllSlow)
		}

		b.B(IDEnd)
	}

	if sub {
		b.B(IDSubStreams)

		one := true
		for _, f := range folders {
			one = one && len(f.Subs) == 1
		}

		if (!one || a.AllCounts) && !a.NoNumUnpack {
			b.B(IDNumUnpackStream)

			for _, f := range folders {
				b.N(uint64(len(f.Subs)))
			}
		}

		multi := false
		for _, f := range folders {
			multi = multi || len(f.Subs) > 1
		}

		if multi || a.AllSizes {
			b.B(IDSize)

			for _, f := range folders {
				for j := 0; j+1 < len(f.Subs); j++ {
					b.N(f.Subs[j].Size)
				}
			}
		}

		var d []*uint32

		for _, f := range folders {
			// As the format has it: a folder with one sub stream whose own
			// digest is known has no digest here.
			if len(f.Subs) == 1 && f.CRC != nil {
				continue
			}

			for _, s := range f.Subs {
				d = append(d, s.CRC)
			}
		}

		if anyDigest(d) {
			b.B(IDCRC)
			digests(b, d, a.AttrAllSlow)
		}

		b.B(IDEnd)
	}

	b.B(IDEnd)
}

// Prop writes a property of the files info.
func Prop(b *Buf, id byte, f func(*Buf)) { prop(b, id, f) }

func prop(b *Buf, id byte, f func(*Buf)) {
	p := Buf{Long: b.Long}

	f(&p)
	b.B(id)
	b.N(uint64(p.Len()))
	b.Write(p.Bytes())
}

// UTF16 returns s as UTF-16LE with a terminating zero.
func UTF16(s string) []byte {
	var p Buf
	for _, u := range utf16.Encode([]rune(s)) {
		p.B(byte(u), byte(u>>8))
	}

	p.B(0, 0)

	return p.Bytes()
}

func files(b *Buf, a *Archive) {
	b.N(uint64(len(a.Files)))

	var es, ef []bool

	anyE, anyF := false, false

	for _, f := range a.Files {
		es = append(es, f.Empty)

		if f.Empty {
			anyE = true

			ef = append(ef, f.EmptyFile)
			anyF = anyF || f.EmptyFile
		}
	}

	if anyE {
		prop(b, IDEmptyStream, func(p *Buf) { p.Bits(es) })
	}

	if anyF {
		prop(b, IDEmptyFile, func(p *Buf) { p.Bits(ef) })
	}

	if a.Dummy > 0 {
		prop(b, IDDummy, func(p *Buf) { p.Write(make([]byte, a.Dummy-1)) })
	}

	if !a.NoNames {
		prop(b, IDName, func(p *Buf) {
			p.B(0)

			for _, f := range a.Files {
				p.Write(UTF16(f.Name))
			}
		})
	}

	times := func(id byte, get func(*File) *uint64) {
		def, some := make([]bool, len(a.Files)), false

		for i := range a.Files {
			def[i] = get(&a.Files[i]) != nil
			some = some || def[i]
		}

		if !some {
			return
		}

		prop(b, id, func(p *Buf) {
			p.OptBits(def, a.AttrAllSlow)
			p.B(0)

			for i := range a.Files {
				if v := get(&a.Files[i]); v != nil {
					p.U8(*v)
				}
			}
		})
	}
	times(IDCTime, func(f *File) *uint64 { return f.CTime })
	times(IDATime, func(f *File) *uint64 { return f.ATime })
	times(IDMTime, func(f *File) *uint64 { return f.MTime })

	def, some := make([]bool, len(a.Files)), false

	for i := range a.Files {
		def[i] = a.Files[i].Attr != nil
		some = some || def[i]
	}

	if some {
		prop(b, IDAttr, func(p *Buf) {
			p.OptBits(def, a.AttrAllSlow)
			p.B(0)

			for _, f := range a.Files {
				if f.Attr != nil {
					p.U4(*f.Attr)
				}
			}
		})
	}

	b.B(IDEnd)
}

// Header returns the plain header of the archive, and the packed bytes.
func (a *Archive) Header() (header, packed []byte) {
	header = a.PlainHeader()

	packed = make([]byte, a.PackPos)
	for _, f := range a.Folders {
		for _, s := range f.Streams {
			packed = append(packed, s...)
		}
	}

	return header, packed
}

// PlainHeader returns the plain header of the archive.
func (a *Archive) PlainHeader() []byte {
	b := Buf{Long: a.Long}

	b.B(IDHeader)

	if len(a.Folders) > 0 {
		b.B(IDMainStreams)
		streams(&b, a, a.Folders, a.PackPos, !a.NoSubStreams)
	}

	if a.FilesInfo != nil {
		b.B(IDFilesInfo)
		a.FilesInfo(&b)
	} else if !a.NoFiles && len(a.Files) > 0 {
		b.B(IDFilesInfo)
		files(&b, a)
	}

	b.B(IDEnd)

	return b.Bytes()
}

// Bytes returns the whole archive.
func (a *Archive) Bytes() []byte {
	h, packed := a.Header()
	packed = append(packed, make([]byte, a.Gap)...)

	if a.EncodeHeader != nil {
		f := a.EncodeHeader(h)

		var b Buf

		b.B(IDEncodedHeader)
		streams(&b, &Archive{}, []Folder{f}, uint64(len(packed)), false)

		for _, s := range f.Streams {
			packed = append(packed, s...)
		}

		h = b.Bytes()
	}

	h = append(append([]byte(nil), h...), a.HeaderTrailer...)

	out := append([]byte(nil), a.Prefix...)
	out = append(out, Frame(packed, h)...)

	return append(out, a.Trailer...)
}

// Frame puts the signature and start headers around packed bytes and a header.
func Frame(packed, h []byte) []byte {
	return FrameRaw(packed, h, uint64(len(packed)), uint64(len(h)), crc32.ChecksumIEEE(h))
}

// FrameRaw is Frame with the start header's fields given.
func FrameRaw(packed, h []byte, offset, size uint64, crc uint32) []byte {
	var s Buf

	s.U8(offset)
	s.U8(size)
	s.U4(crc)

	var out Buf

	out.B('7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, 4)
	out.U4(crc32.ChecksumIEEE(s.Bytes()))
	out.Write(s.Bytes())
	out.Write(packed)
	out.Write(h)

	return out.Bytes()
}

// Single returns a folder with one coder.
func Single(id, props, packed []byte, size int) Folder {
	return Folder{
		Coders:  []Coder{{ID: id, Props: props, Size: uint64(size)}},
		Packed:  []uint64{0},
		Streams: [][]byte{packed},
	}
}

// Solid returns a folder of one coder holding the concatenation of the
// contents, which enc packs.
func Solid(id, props []byte, enc func([]byte) []byte, contents ...[]byte) Folder {
	all := bytes.Join(contents, nil)
	f := Single(id, props, enc(all), len(all))

	for _, c := range contents {
		f.Subs = append(f.Subs, Sub{uint64(len(c)), CRC(c)})
	}

	return f
}
