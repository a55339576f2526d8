package enc

import "encoding/binary"

// X86 encodes b with 7-Zip's BCJ filter (x86_Convert of Bra86.c).
func X86(b []byte) []byte {
	allowed := [8]bool{true, true, true, false, true, false, false, false}
	bit := [8]uint32{0, 1, 2, 2, 3, 3, 3, 3}
	ms := func(x byte) bool { return x == 0 || x == 0xff }
	d := append([]byte(nil), b...)

	if len(d) < 5 {
		return d
	}

	const ip = 5

	var prevMask uint32

	pos, prevPos := 0, -1

	for {
		for ; pos < len(d)-4; pos++ {
			if d[pos]&0xfe == 0xe8 {
				break
			}
		}

		if pos >= len(d)-4 {
			return d
		}

		diff := pos - prevPos
		if diff > 3 {
			prevMask = 0
		} else {
			prevMask = (prevMask << uint(diff-1)) & 7
			if prevMask != 0 {
				x := d[pos+4-int(bit[prevMask])]
				if !allowed[prevMask] || ms(x) {
					prevPos = pos
					prevMask = (prevMask<<1)&7 | 1
					pos++

					continue
				}
			}
		}

		prevPos = pos

		if !ms(d[pos+4]) {
			prevMask = (prevMask<<1)&7 | 1
			pos++

			continue
		}

		src := binary.LittleEndian.Uint32(d[pos+1:])

		var dest uint32

		for {
			dest = ip + uint32(pos) + src
			if prevMask == 0 {
				break
			}

			index := bit[prevMask] * 8
			if !ms(byte(dest >> (24 - index))) {
				break
			}

			src = dest ^ (1<<(32-index) - 1)
		}

		dest &= 0x1ffffff
		if dest&0x1000000 != 0 {
			dest |= 0xff000000
		}

		binary.LittleEndian.PutUint32(d[pos+1:], dest)
		pos += 5
	}
}

// ARM encodes b with 7-Zip's ARM filter.
func ARM(b []byte) []byte {
	d := append([]byte(nil), b...)
	for i := 0; i+4 <= len(d); i += 4 {
		if d[i+3] == 0xeb {
			src := uint32(d[i]) | uint32(d[i+1])<<8 | uint32(d[i+2])<<16
			dest := (src<<2 + uint32(i) + 8) >> 2
			d[i], d[i+1], d[i+2] = byte(dest), byte(dest>>8), byte(dest>>16)
		}
	}

	return d
}

// ARM64 encodes b with 7-Zip's ARM64 filter.
func ARM64(b []byte) []byte {
	d := append([]byte(nil), b...)
	for i := 0; i+4 <= len(d); i += 4 {
		v, pc := binary.LittleEndian.Uint32(d[i:]), uint32(i)

		switch {
		case v>>26 == 0x25: // BL
			v = 0x94000000 | (v+pc>>2)&0x03ffffff
		case v>>31 == 1 && v>>24&0x1f == 0x10: // ADRP
			// only for offsets that fit the reduced range
			imm := v>>29&3 | v>>5&0x7ffff<<2
			if top := (imm + 1<<17) & 0x1fffff; top>>18 != 0 {
				continue
			}

			imm = (imm + pc>>12) & 0x3ffff
			if imm&0x20000 != 0 {
				imm |= 0x1c0000
			}

			v = 0x90000000 | v&0x1f | imm&3<<29 | imm>>2&0x7ffff<<5
		default:
			continue
		}

		binary.LittleEndian.PutUint32(d[i:], v)
	}

	return d
}

// PPC encodes b with 7-Zip's PowerPC filter.
func PPC(b []byte) []byte {
	d := append([]byte(nil), b...)
	for i := 0; i+4 <= len(d); i += 4 {
		if v := binary.BigEndian.Uint32(d[i:]); v&0xfc000003 == 0x48000001 {
			v = 0x48000001 | (v&0x03fffffc+uint32(i))&0x03fffffc
			binary.BigEndian.PutUint32(d[i:], v)
		}
	}

	return d
}

// SPARC encodes b with 7-Zip's SPARC filter.
func SPARC(b []byte) []byte {
	d := append([]byte(nil), b...)
	for i := 0; i+4 <= len(d); i += 4 {
		if d[i] == 0x40 && d[i+1]&0xc0 == 0 || d[i] == 0x7f && d[i+1]&0xc0 == 0xc0 {
			src := binary.BigEndian.Uint32(d[i:])
			dest := (src<<2 + uint32(i)) >> 2
			dest = (0-(dest>>22&1))<<22&0x3fffffff | dest&0x3fffff | 0x40000000
			binary.BigEndian.PutUint32(d[i:], dest)
		}
	}

	return d
}

// rangeEncoder is the range encoder of BCJ2.
type rangeEncoder struct {
	low   uint64
	rng   uint32
	cache byte
	size  int
	out   []byte
	prob  [258]uint32
}

func newRangeEncoder() *rangeEncoder {
	e := &rangeEncoder{rng: 0xffffffff, size: 1}
	for i := range e.prob {
		e.prob[i] = 1024
	}

	return e
}

func (e *rangeEncoder) shift() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		t := e.cache

		for {
			e.out = append(e.out, t+byte(e.low>>32))
			t = 0xff
			e.size--

			if e.size == 0 {
				break
			}
		}

		e.cache = byte(e.low >> 24)
	}

	e.size++
	e.low = uint64(uint32(e.low) << 8)
}

func (e *rangeEncoder) bit(i int, v bool) {
	bound := (e.rng >> 11) * e.prob[i]
	if v {
		e.low += uint64(bound)
		e.rng -= bound
		e.prob[i] -= e.prob[i] >> 5
	} else {
		e.rng = bound
		e.prob[i] += (2048 - e.prob[i]) >> 5
	}

	if e.rng < 1<<24 {
		e.rng <<= 8
		e.shift()
	}
}

// BCJ2 splits b into the main, call, jump and range coder streams.  choose
// decides which branches are converted.
func BCJ2(b []byte, choose func(pos int) bool) [4][]byte {
	var (
		o    [4][]byte
		prev byte
	)

	e := newRangeEncoder()

	for i := 0; i < len(b); i++ {
		x := b[i]
		o[0] = append(o[0], x)

		jcc := prev == 0x0f && x&0xf0 == 0x80
		if x&0xfe != 0xe8 && !jcc {
			prev = x

			continue
		}

		idx := 257
		if x == 0xe8 {
			idx = int(prev)
		} else if x == 0xe9 {
			idx = 256
		}

		if i+5 <= len(b) && choose(i) {
			e.bit(idx, true)

			rel := binary.LittleEndian.Uint32(b[i+1:])
			abs := binary.BigEndian.AppendUint32(nil, rel+uint32(i)+5)

			if x == 0xe8 {
				o[1] = append(o[1], abs...)
			} else {
				o[2] = append(o[2], abs...)
			}

			prev = b[i+4]
			i += 4
		} else {
			e.bit(idx, false)

			prev = x
		}
	}

	for i := 0; i < 5; i++ {
		e.shift()
	}

	o[3] = e.out

	return o
}
