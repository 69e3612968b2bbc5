package utils

// Specification functions: InnoDB compressed integers.

// SpecCompSize is the length of the encoding that starts with byte c.
func SpecCompSize(c byte) uint64 {
	if c < 0x80 {
		return 1
	}
	if c < 0xC0 {
		return 2
	}
	if c < 0xE0 {
		return 3
	}
	if c < 0xF0 {
		return 4
	}
	return 5
}

// SpecComp is the value of the encoding at the start of b.
func SpecComp(b []byte) uint64 {
	switch SpecCompSize(b[0]) {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(b[0]&0x3f)<<8 | uint64(b[1])
	case 3:
		return uint64(b[0]&0x1f)<<16 | uint64(b[1])<<8 | uint64(b[2])
	case 4:
		return uint64(b[0]&0x0f)<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	}
	return SpecBE4(b, 1)
}

// SpecCompFits: a whole encoding lies at pos.
func SpecCompFits(b []byte, pos uint64) bool {
	return pos < uint64(len(b)) && SpecCompSize(b[pos]) <= uint64(len(b))-pos
}

// SpecCompSizeOf is the length of the encoding of v < 2^32.
func SpecCompSizeOf(v uint64) uint64 {
	if v < 0x80 {
		return 1
	}
	if v < 0x4000 {
		return 2
	}
	if v < 0x200000 {
		return 3
	}
	if v < 0x10000000 {
		return 4
	}
	return 5
}

// DoEncode writes the server's encoding of v < 2^32 at pos, as mach_write_compressed does.
func DoEncode(b []byte, pos uint64, v uint64) {
	if v < 0x80 {
		b[pos] = byte(v)
	} else if v < 0x4000 {
		b[pos] = byte(v>>8) | 0x80
		b[pos+1] = byte(v)
	} else if v < 0x200000 {
		b[pos] = byte(v>>16) | 0xC0
		b[pos+1] = byte(v >> 8)
		b[pos+2] = byte(v)
	} else if v < 0x10000000 {
		b[pos] = byte(v>>24) | 0xE0
		b[pos+1] = byte(v >> 16)
		b[pos+2] = byte(v >> 8)
		b[pos+3] = byte(v)
	} else {
		b[pos] = 0xF0
		b[pos+1] = byte(v >> 24)
		b[pos+2] = byte(v >> 16)
		b[pos+3] = byte(v >> 8)
		b[pos+4] = byte(v)
	}
}

// LemmaRoundTrip: what the server encodes at any position, the decoder reads back.
func LemmaRoundTrip(b []byte, pos uint64, v uint64) bool {
	DoEncode(b, pos, v)
	r, n, err := MatchParseCompressed(b, pos)
	return err == nil && r == v && n == SpecCompSizeOf(v)
}

// LemmaRoundTrip64: the "compressed" 64-bit form (high word compressed, low word plain).
func LemmaRoundTrip64(b []byte, pos *uint64, v uint64) bool {
	p := *pos
	DoEncode(b, p, v>>32)
	n := SpecCompSizeOf(v >> 32)
	b[p+n] = byte(v >> 24)
	b[p+n+1] = byte(v >> 16)
	b[p+n+2] = byte(v >> 8)
	b[p+n+3] = byte(v)
	r := MatchUllReadComPressed(b, pos)
	return r == v && *pos == p+n+4
}

// LemmaRoundTripMuch: the "much compressed" 64-bit form.
func LemmaRoundTripMuch(b []byte, v uint64) bool {
	n := uint64(0)
	if v>>32 != 0 {
		b[0] = 0xFF
		DoEncode(b, 1, v>>32)
		n = 1 + SpecCompSizeOf(v>>32)
	}
	DoEncode(b, n, v&0xffffffff)
	r, err := MatchUllReadMuchCompressed(b)
	return err == nil && r == v && MachUllGetMuchCompressedSize(v) == n+SpecCompSizeOf(v&0xffffffff)
}

// SpecMuchFits: a whole "much compressed" number lies at the start of b.
func SpecMuchFits(b []byte) bool {
	if len(b) == 0 {
		return false
	}
	if b[0] != 0xFF {
		return SpecCompFits(b, 0)
	}
	return SpecCompFits(b, 1) && SpecCompFits(b, 1+SpecCompSize(b[1]))
}

// SpecMuch is the "much compressed" number at the start of b.
func SpecMuch(b []byte) uint64 {
	if b[0] != 0xFF {
		return SpecComp(b)
	}
	return SpecComp(b[1:])<<32 | SpecComp(b[1+SpecCompSize(b[1]):])
}

// SpecMuchSizeOf is the length of the "much compressed" encoding of v.
func SpecMuchSizeOf(v uint64) uint64 {
	if v>>32 == 0 {
		return SpecCompSizeOf(v)
	}
	return 1 + SpecCompSizeOf(v>>32) + SpecCompSizeOf(v&0xffffffff)
}
