package ibdata

// Specification functions: page headers.

// SpecU is the big-endian value of the n bytes at k, 1 <= n <= 8.
func SpecU(b []byte, k int, n int) uint64 {
	switch n {
	case 2:
		return uint64(b[k])<<8 | uint64(b[k+1])
	case 4:
		return SpecU4(b, k)
	}
	return SpecU4(b, k)<<32 | SpecU4(b, k+4)
}

func SpecU4(b []byte, k int) uint64 {
	return uint64(b[k])<<24 | uint64(b[k+1])<<16 | uint64(b[k+2])<<8 | uint64(b[k+3])
}

// SpecTail: s is b without its first k bytes.
func SpecTail(s []byte, b []byte, k int) bool {
	return len(s) == len(b)-k && govcAll(0, len(s), func(i int) bool { return s[i] == b[k+i] })
}
