package ibdata

// Specification functions: the record chain of a page.

// SpecEvAt, SpecEvCheck and SpecEvRow stand for the handling of the record at offset off: its
// column offsets are found, they are compared with the table, its row is decoded.
func SpecEvAt(off uint64) string   { return "" }
func SpecEvCheck(fits bool) string { return "" }
func SpecEvRow(off int) string     { return "" }

// SpecAllFit: the sizes of the columns from i on agree with the table.
func SpecAllFit(columns []Columns, offs []uint64, i int) bool {
	if i >= len(columns) {
		return true
	}
	return SpecColFits(columns[i], offs, i) && SpecAllFit(columns, offs, i+1)
}

// SpecAnyBadCol: a column from i on lies outside the page or does not hold a value of its type.
func SpecAnyBadCol(columns []Columns, o []byte, offs []uint64, i int) bool {
	if i >= len(columns) {
		return false
	}
	return SpecBadCol(columns[i], o, offs, i) || SpecAnyBadCol(columns, o, offs, i+1)
}

// SpecCompact: the page's rows are in the COMPACT format.
func SpecCompact(d []byte) bool { return d[42]&0x80 != 0 }

func SpecInfimum(d []byte) uint64 {
	if SpecCompact(d) {
		return 99
	}
	return 101
}

func SpecSupremum(d []byte) uint64 {
	if SpecCompact(d) {
		return 112
	}
	return 116
}

// SpecStart is the offset of the first record.
func SpecStart(d []byte, recovery bool, free uint64) uint64 {
	if recovery {
		return free
	}
	if SpecCompact(d) {
		return 99 + SpecU(d, 97, 2)
	}
	return SpecU(d, 99, 2)
}

// SpecNext is the offset of the record after the one at off, 0 after the last.
func SpecNext(d []byte, off uint64) uint64 {
	b := SpecU(d, int(off)-2, 2)
	if b == 0 {
		return 0
	}
	if b > 0x8000 {
		b = b - 0x10000
	}
	if SpecCompact(d) {
		return off + b
	}
	return b
}

// SpecOff is the offset of record k of the chain from start.
func SpecOff(d []byte, start uint64, k int) uint64 {
	if k <= 0 {
		return start
	}
	return SpecNext(d, SpecOff(d, start, k-1))
}

// SpecIn: x is one of the first k records.
func SpecIn(d []byte, start uint64, k int, x uint64) bool {
	if k <= 0 {
		return false
	}
	return SpecOff(d, start, k-1) == x || SpecIn(d, start, k-1, x)
}

// SpecOnce: none of the first k records is there twice, and all are inside the page.
func SpecOnce(d []byte, start uint64, k int) bool {
	if k <= 0 {
		return true
	}
	return SpecOnce(d, start, k-1) && !SpecIn(d, start, k-1, SpecOff(d, start, k-1)) &&
		SpecOff(d, start, k-1) < 16378 && SpecOff(d, start, k-1) != SpecSupremum(d)
}

// SpecTrace: the first k records of the chain, handled one after the other.
func SpecTrace(d []byte, start uint64, k int) string {
	if k <= 0 {
		return ""
	}
	return SpecTrace(d, start, k-1) + SpecEvAt(SpecOff(d, start, k-1)) + SpecEvCheck(true) + SpecEvRow(int(SpecOff(d, start, k-1)))
}

// SpecChainEnd: there is no record k.
func SpecChainEnd(d []byte, start uint64, k int) bool {
	off := SpecOff(d, start, k)
	return off == 0 || k == 0 && off == SpecInfimum(d) || off >= 16378 || off == SpecSupremum(d) || SpecIn(d, start, k, off) || k >= 16384
}

// SpecChainTail: out is the handling of the first k records, and of what the parsing stops at:
// nothing when there is no record k (or, if unknown, no table), a record without room for its
// header, one whose column sizes do not agree with the table, one that cannot be decoded.
func SpecChainTail(out string, d []byte, start uint64, k int, n int, unknown bool) bool {
	t := SpecTrace(d, start, k)
	off := SpecOff(d, start, k)
	return out == t && (SpecChainEnd(d, start, k) || unknown) ||
		out == t+SpecEvAt(off)+"!panic" && SpecBadRec(d, off, n) ||
		out == t+SpecEvAt(off)+SpecEvCheck(false) ||
		out == t+SpecEvAt(off)+SpecEvCheck(true)+SpecEvRow(int(off))+"!panic"
}

// SpecBadRec: there is no room for the header of a record at off.
func SpecBadRec(d []byte, off uint64, n int) bool {
	if SpecCompact(d) {
		return int(off) < 16+4*n
	}
	return off < 3 || off < SpecOldExtra(d, off, uint64(n))
}

// SpecHasTable: the dictionary knows the table.
func SpecHasTable(m map[uint64]Tables, id uint64) bool {
	_, ok := m[id]
	return ok
}
