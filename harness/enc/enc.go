// Package enc holds the encoders of the harness.  None of them is the code
// under test: they are other libraries, or written here from the formats'
// definitions.
package enc

import (
	"bytes"
	"compress/flate"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os/exec"
	"unicode/utf16"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"
)

func check(err error) {
	if err != nil {
		panic(fmt.Sprint("harness encoder: ", err))
	}
}

// Deflate compresses b.
func Deflate(b []byte) []byte {
	var o bytes.Buffer

	w, err := flate.NewWriter(&o, 6)
	check(err)
	_, err = w.Write(b)
	check(err)
	check(w.Close())

	return o.Bytes()
}

// Bzip2 compresses b.
func Bzip2(b []byte) []byte {
	c := exec.Command("bzip2", "-1", "-c")
	c.Stdin = bytes.NewReader(b)
	o, err := c.Output()
	check(err)

	return o
}

// LZMA compresses b and returns the properties too.
func LZMA(b []byte) (props, packed []byte) {
	var o bytes.Buffer

	w, err := lzma.WriterConfig{DictCap: 1 << 16, Size: int64(len(b)), SizeInHeader: true}.NewWriter(&o)
	check(err)
	_, err = w.Write(b)
	check(err)
	check(w.Close())

	return append([]byte(nil), o.Bytes()[:5]...), append([]byte(nil), o.Bytes()[13:]...)
}

// LZMA2 compresses b with a dictionary of 64 KiB.
func LZMA2(b []byte) (props, packed []byte) {
	var o bytes.Buffer

	w, err := lzma.Writer2Config{DictCap: 1 << 16}.NewWriter2(&o)
	check(err)
	_, err = w.Write(b)
	check(err)
	check(w.Close())

	return []byte{8}, o.Bytes()
}

// Zstd compresses b.
func Zstd(b []byte) []byte {
	w, err := zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1))
	check(err)
	defer w.Close()

	return w.EncodeAll(b, nil)
}

// BrotliRaw compresses b without a frame.
func BrotliRaw(b []byte) []byte {
	var o bytes.Buffer

	w := brotli.NewWriterLevel(&o, 5)
	_, err := w.Write(b)
	check(err)
	check(w.Close())

	return o.Bytes()
}

// Brotli compresses b in one frame as 7-Zip-zstd does.
func Brotli(b []byte) []byte {
	raw := BrotliRaw(b)
	h := make([]byte, 16)
	binary.LittleEndian.PutUint32(h, 0x184d2a50)
	binary.LittleEndian.PutUint32(h[4:], 8)
	binary.LittleEndian.PutUint32(h[8:], uint32(len(raw)))
	h[12], h[13] = 'B', 'R'
	binary.LittleEndian.PutUint16(h[14:], uint16((len(b)+0xffff)>>16))

	return append(h, raw...)
}

// LZ4 compresses b.
func LZ4(b []byte) []byte {
	var o bytes.Buffer

	w := lz4.NewWriter(&o)
	check(w.Apply(lz4.BlockSizeOption(lz4.Block64Kb)))
	_, err := w.Write(b)
	check(err)
	check(w.Close())

	return o.Bytes()
}

// Delta encodes b.
func Delta(b []byte, distance int) []byte {
	o := append([]byte(nil), b...)
	for i := len(o) - 1; i >= distance; i-- {
		o[i] -= o[i-distance]
	}

	return o
}

// Key derives the key as 7-Zip does.
func Key(pw string, salt []byte, cycles int) []byte {
	var p []byte
	for _, u := range utf16.Encode([]rune(pw)) {
		p = append(p, byte(u), byte(u>>8))
	}

	if cycles == 0x3f {
		k := make([]byte, 32)
		copy(k, append(append([]byte(nil), salt...), p...))

		return k
	}

	h := sha256.New()

	var c [8]byte
	for i := uint64(0); i < 1<<uint(cycles); i++ {
		h.Write(salt)
		h.Write(p)
		binary.LittleEndian.PutUint64(c[:], i)
		h.Write(c[:])
	}

	return h.Sum(nil)
}

// AES encrypts b, padded with zeroes to whole blocks.
func AES(b []byte, pw string, salt, iv []byte, cycles int) (props, packed []byte) {
	full := make([]byte, aes.BlockSize)
	copy(full, iv)

	blk, err := aes.NewCipher(Key(pw, salt, cycles))
	check(err)

	o := append([]byte(nil), b...)
	for len(o)%aes.BlockSize != 0 {
		o = append(o, 0)
	}

	cipher.NewCBCEncrypter(blk, full).CryptBlocks(o, o)

	b0, b1 := byte(cycles), byte(0)
	if len(salt) > 0 {
		b0 |= 0x80
		b1 |= byte(len(salt)-1) << 4
	}

	if len(iv) > 0 {
		b0 |= 0x40
		b1 |= byte(len(iv) - 1)
	}

	return append(append([]byte{b0, b1}, salt...), iv...), o
}

// decrypt undoes AES with Password, props saying how.
func decrypt(props, b []byte) []byte {
	p := props[2:]
	salt, iv := 0, 0

	if props[0]&0x80 != 0 {
		salt = int(props[1]>>4) + 1
	}

	if props[0]&0x40 != 0 {
		iv = int(props[1]&15) + 1
	}

	full := make([]byte, aes.BlockSize)
	copy(full, p[salt:salt+iv])

	blk, err := aes.NewCipher(Key(Password, p[:salt], int(props[0]&0x3f)))
	check(err)

	o := append([]byte(nil), b...)
	cipher.NewCBCDecrypter(blk, full).CryptBlocks(o, o)

	return o
}
