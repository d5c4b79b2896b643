package ref

// Pack places septet k in bits fill+7k onwards, least significant first.
func Pack(s []byte, fill int) []byte {
	if len(s) == 0 {
		return nil
	}
	bits := fill + 7*len(s)
	b := make([]byte, (bits+7)/8)
	for k, v := range s {
		for i := 0; i < 7; i++ {
			if v>>i&1 == 1 {
				p := fill + 7*k + i
				b[p/8] |= 1 << (p % 8)
			}
		}
	}
	return b
}

// Unpack returns the n septets from bit fill onwards.
func Unpack(b []byte, fill, n int) []byte {
	s := make([]byte, n)
	for k := range s {
		for i := 0; i < 7; i++ {
			p := fill + 7*k + i
			if b[p/8]>>(p%8)&1 == 1 {
				s[k] |= 1 << i
			}
		}
	}
	return s
}

// Septets is the number of whole septets following the fill in b.
func Septets(b []byte, fill int) int {
	if 8*len(b) < fill {
		return 0
	}
	return (8*len(b) - fill) / 7
}

// FillBits aligns the septets following a header of h octets.
func FillBits(h int) int { return (7 - h*8%7) % 7 }

// Tail returns the bits from bit position p to the end.
func Tail(b []byte, p int) (n int, zero bool) {
	zero = true
	for ; p < 8*len(b); p++ {
		n++
		if b[p/8]>>(p%8)&1 == 1 {
			zero = false
		}
	}
	return
}

// Split is a greedy division of a message into blocks of at most bs.
//
// Tokens that are not to be split are an escape and its septet for 7 bit, and
// a surrogate pair for UCS-2. ok is false if a block cannot hold some token.
func Split(msg []byte, alpha, bs int) (chunks [][]byte, ok bool) {
	start, pos := 0, 0
	for pos < len(msg) {
		n := TokenLen(msg[pos:], alpha)
		if n > bs {
			return nil, false
		}
		if pos+n-start > bs {
			chunks = append(chunks, msg[start:pos])
			start = pos
		}
		pos += n
	}
	return append(chunks, msg[start:]), true
}

// TokenLen is the length of the first unit of the message not to be split.
func TokenLen(msg []byte, alpha int) int {
	switch alpha {
	case Alpha8Bit:
		return 1
	case AlphaUCS2:
		if len(msg) < 2 {
			return len(msg)
		}
		if IsHigh(msg) && len(msg) >= 4 && IsLow(msg[2:]) {
			return 4
		}
		return 2
	}
	if msg[0] == Esc && len(msg) > 1 {
		return 2
	}
	return 1
}

// IsHigh reports whether msg begins with a high surrogate.
func IsHigh(msg []byte) bool { return len(msg) >= 2 && msg[0] >= 0xd8 && msg[0] < 0xdc }

// IsLow reports whether msg begins with a low surrogate.
func IsLow(msg []byte) bool { return len(msg) >= 2 && msg[0] >= 0xdc && msg[0] < 0xe0 }
