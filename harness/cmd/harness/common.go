package main

// pattern returns n bytes that tell position and stream apart and contain
// branch instructions of every filter's architecture now and then.
func pattern(n int, stream int) []byte {
	b := make([]byte, n)
	for i := range b {
		x := uint32(i)*2654435761 + uint32(stream)*40503 + 12345
		x ^= x >> 13
		x *= 0x5bd1e995
		x ^= x >> 15
		b[i] = byte(x)

		switch i % 37 {
		case 11:
			b[i] = 0xe8
		case 15:
			b[i] = byte(x & 1 * 255)
		case 19:
			b[i] = 0xeb
		case 20:
			b[i] = 0x48
		case 23:
			b[i] = 0x40
		case 28, 29, 30, 31, 32:
			b[i] = b[i-10]
		}
	}

	return b
}
