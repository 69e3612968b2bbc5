package utils

// Specification functions: pieces of redo log records. Each SpecXEnd(…, pos) is the position
// after the piece that starts at pos, or 0 if no whole piece lies there.

// SpecCompEnd: a compressed 32-bit number.
func SpecCompEnd(b []byte, pos uint64) uint64 {
	if !SpecCompFits(b, pos) {
		return 0
	}
	return pos + SpecCompSize(b[pos])
}

// SpecFixEnd: n bytes.
func SpecFixEnd(b []byte, pos uint64, n uint64) uint64 {
	if pos == 0 && n == 0 || pos > uint64(len(b)) || n > uint64(len(b))-pos {
		return 0
	}
	return pos + n
}

// SpecUllEnd: a compressed high word followed by a plain low word.
func SpecUllEnd(b []byte, pos uint64) uint64 {
	p := SpecCompEnd(b, pos)
	if p == 0 {
		return 0
	}
	return SpecFixEnd(b, p, 4)
}

// SpecIndexEnd: the description of an index: the number of its columns, the number of unique
// ones, and two bytes for each column.
func SpecIndexEnd(comp bool, b []byte, pos uint64) uint64 {
	if !comp {
		return pos
	}
	p := SpecFixEnd(b, pos, 4)
	if p == 0 {
		return 0
	}
	return SpecFixEnd(b, p, 2*SpecBE(b[pos:], 2))
}

// SpecInsertEnd: the record of an insert on a page.
func SpecInsertEnd(short bool, b []byte, pos uint64) uint64 {
	p := pos
	if !short {
		p = SpecFixEnd(b, pos, 2)
		if p == 0 {
			return 0
		}
	}
	q := SpecCompEnd(b, p)
	if q == 0 {
		return 0
	}
	n := SpecComp(b[p:])
	if n&1 != 0 {
		q = SpecFixEnd(b, q, 1)
		if q == 0 {
			return 0
		}
		q = SpecCompEnd(b, q)
		if q == 0 {
			return 0
		}
		q = SpecCompEnd(b, q)
		if q == 0 {
			return 0
		}
	}
	return SpecFixEnd(b, q, n>>1)
}
