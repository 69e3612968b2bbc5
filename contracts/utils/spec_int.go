package utils

// Specification functions: integers as InnoDB stores them.

// SpecBE is the big-endian value of the first n bytes, 1 <= n <= 8.
func SpecBE(b []byte, n int) uint64 {
	switch n {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(b[0])<<8 | uint64(b[1])
	case 3:
		return uint64(b[0])<<16 | uint64(b[1])<<8 | uint64(b[2])
	case 4:
		return uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	case 5:
		return uint64(b[0])<<32 | SpecBE4(b, 1)
	case 6:
		return uint64(b[0])<<40 | uint64(b[1])<<32 | SpecBE4(b, 2)
	case 7:
		return uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | SpecBE4(b, 3)
	case 8:
		return SpecBE4(b, 0)<<32 | SpecBE4(b, 4)
	}
	return 0
}

// SpecBE4 is the big-endian value of the four bytes at k.
func SpecBE4(b []byte, k int) uint64 {
	return uint64(b[k])<<24 | uint64(b[k+1])<<16 | uint64(b[k+2])<<8 | uint64(b[k+3])
}

// SpecSigned: a signed column of n bytes is stored big-endian with its sign bit inverted.
func SpecSigned(b []byte, n int) int64 {
	switch n {
	case 1:
		return int64(SpecBE(b, 1)) - 128
	case 2:
		return int64(SpecBE(b, 2)) - 32768
	case 3:
		return int64(SpecBE(b, 3)) - 8388608
	case 4:
		return int64(SpecBE(b, 4)) - 2147483648
	}
	return int64(SpecBE(b, 8) ^ (1 << 63))
}

// SpecIntOf is the number an interface value holds, whatever integer type it has.
func SpecIntOf(v interface{}) int64 {
	if x, ok := v.(int); ok {
		return int64(x)
	}
	if x, ok := v.(int64); ok {
		return x
	}
	if x, ok := v.(uint64); ok {
		return int64(x)
	}
	return 0
}

// SpecIsInt: the value is an integer of one of the types the decoders use.
func SpecIsInt(v interface{}) bool {
	if _, ok := v.(int); ok {
		return true
	}
	if _, ok := v.(int64); ok {
		return true
	}
	if x, ok := v.(uint64); ok {
		return x < 1<<63
	}
	return false
}
