package ibdata

import "github.com/zbdba/db-recovery/recovery/utils"

// Specification functions: where the columns of a row are.

const (
	specNull = 1 << 31
	specExt  = 1 << 30
)

// SpecOldShort: a REDUNDANT record says itself whether its end offsets have one byte or two.
func SpecOldShort(d []byte, rec uint64) bool { return d[rec-3]&1 != 0 }

// SpecOldExtra is the size of the header and the end offsets of a REDUNDANT record of n columns.
func SpecOldExtra(d []byte, rec uint64, n uint64) uint64 {
	if SpecOldShort(d, rec) {
		return 6 + n
	}
	return 6 + 2*n
}

// SpecOldEnd: the end offset of column i of a REDUNDANT record, with its NULL and external flags.
func SpecOldEnd(d []byte, rec uint64, i uint64) uint64 {
	if SpecOldShort(d, rec) {
		e := uint64(d[rec-7-i])
		if e&0x80 != 0 {
			return e&0x7f | specNull
		}
		return e
	}
	e := uint64(d[rec-8-2*i])<<8 | uint64(d[rec-7-2*i])
	r := e & 0x3fff
	if e&0x8000 != 0 {
		r |= specNull
	}
	if e&0x4000 != 0 {
		r |= specExt
	}
	return r
}

// SpecVar: the type has a stored length.
func SpecVar(c Columns) bool {
	return c.FieldLen == 0 || utils.SpecVarType(c.FieldType)
}

// SpecNulls: the nullable columns among the first k.
func SpecNulls(cols []Columns, k int) int {
	if k <= 0 {
		return 0
	}
	if cols[k-1].IsNUll {
		return SpecNulls(cols, k-1) + 1
	}
	return SpecNulls(cols, k-1)
}

// SpecIsNull: the null bitmap stands in front of the 5 bytes of header and grows downwards.
func SpecIsNull(d []byte, rec int, cols []Columns, k int) bool {
	j := SpecNulls(cols, k)
	return cols[k].IsNUll && d[rec-6-j/8]>>(uint(j)%8)&1 != 0
}

// SpecLens: where the length bytes of the columns from k on start (they grow downwards).
func SpecLens(d []byte, rec int, nulls int, cols []Columns, k int) int {
	if k <= 0 {
		return rec - 6 - (nulls+7)/8
	}
	p := SpecLens(d, rec, nulls, cols, k-1)
	if SpecIsNull(d, rec, cols, k-1) || !SpecVar(cols[k-1]) {
		return p
	}
	if SpecTwoBytes(d, p, cols[k-1]) {
		return p - 2
	}
	return p - 1
}

// SpecTwoBytes: a length of two bytes.
func SpecTwoBytes(d []byte, p int, c Columns) bool {
	return (c.FieldLen > 255 || c.FieldType == utils.DATA_BLOB) && d[p] >= 0x80
}

// SpecNewLen is the stored length of column k, which is not NULL.
func SpecNewLen(d []byte, p int, c Columns) uint64 {
	if !SpecVar(c) {
		return c.FieldLen
	}
	if SpecTwoBytes(d, p, c) {
		return uint64(d[p]&0x3f)<<8 | uint64(d[p-1])
	}
	return uint64(d[p])
}

// SpecNewOffs: where column k starts, columns lie end to end. (Beyond any page it stays there.)
func SpecNewOffs(d []byte, rec int, nulls int, cols []Columns, k int) uint64 {
	if k <= 0 {
		return 0
	}
	e := SpecNewOffs(d, rec, nulls, cols, k-1)
	if e > 0xffff || SpecIsNull(d, rec, cols, k-1) {
		return e
	}
	return e + SpecNewLen(d, SpecLens(d, rec, nulls, cols, k-1), cols[k-1])
}

// SpecNewEnd: the end offset of column k, with its NULL and external flags.
func SpecNewEnd(d []byte, rec int, nulls int, cols []Columns, k int) uint64 {
	if SpecIsNull(d, rec, cols, k) {
		return SpecNewOffs(d, rec, nulls, cols, k) | specNull
	}
	p := SpecLens(d, rec, nulls, cols, k)
	e := SpecNewOffs(d, rec, nulls, cols, k) + SpecNewLen(d, p, cols[k])
	if SpecVar(cols[k]) && SpecTwoBytes(d, p, cols[k]) && d[p]&0x40 != 0 {
		return e | specExt
	}
	return e
}

// SpecFrom: s is the memory of b from k on.
func SpecFrom(s []byte, b []byte, k int) bool {
	return len(s) == len(b)-k && len(s) > 0 && &s[0] == &b[k]
}

// SpecCol: recovered column g is column c of the table with the value stored in the record rec,
// whose columns lie as offs says.
func SpecCol(g, c Columns, rec []byte, offs []uint64, i int) bool {
	if g.FieldName != c.FieldName || g.FieldType != c.FieldType || g.MySQLType != c.MySQLType || g.FieldPos != c.FieldPos ||
		g.FieldLen != c.FieldLen || g.IsNUll != c.IsNUll || g.IsUnsigned != c.IsUnsigned || g.TableID != c.TableID {
		return false
	}
	if !SpecStored(rec, offs, i) {
		return g.FieldValue == nil && g.IsBinary == c.IsBinary
	}
	if g.IsBinary != utils.SpecBinary(c.FieldType, c.MySQLType, c.IsBinary) {
		return false
	}
	b, n, fix := rec[utils.SpecColStart(offs, i):], utils.SpecColLen(offs, i), SpecFixed(c)
	return !utils.SpecFits(c.FieldType, c.MySQLType, len(b), n, fix, c.IsUnsigned) ||
		!utils.SpecKnown(c.FieldType, c.MySQLType, b, n, fix, c.IsUnsigned) ||
		utils.SpecSame(g.FieldValue, utils.SpecValue(c.FieldType, c.MySQLType, b, n, fix, c.IsUnsigned, c.IsBinary))
}

// SpecStored: column i is not NULL and lies inside the page.
func SpecStored(rec []byte, offs []uint64, i int) bool {
	return utils.SpecColLen(offs, i) <= uint64(len(rec))-utils.SpecColStart(offs, i)
}

// SpecFixed is the length of a column of a fixed length, 0 for the others.
func SpecFixed(c Columns) int {
	if SpecVar(c) {
		return 0
	}
	return int(c.FieldLen)
}

// SpecBadCol: column i cannot be read.
func SpecBadCol(c Columns, rec []byte, offs []uint64, i int) bool {
	s, n := utils.SpecColStart(offs, i), utils.SpecColLen(offs, i)
	return s > uint64(len(rec)) || SpecStored(rec, offs, i) &&
		!utils.SpecFits(c.FieldType, c.MySQLType, len(rec)-int(s), n, SpecFixed(c), c.IsUnsigned)
}

// SpecUnchanged: the columns of g from k on are those of c.
func SpecUnchanged(g, c []Columns, k int) bool {
	return len(g) == len(c) && govcAll(k, len(c), func(i int) bool { return SpecSameCol(g[i], c[i]) })
}

func SpecSameCol(g, c Columns) bool {
	return g.FieldName == c.FieldName && g.FieldType == c.FieldType && g.MySQLType == c.MySQLType && g.FieldPos == c.FieldPos &&
		g.FieldLen == c.FieldLen && g.IsNUll == c.IsNUll && g.IsUnsigned == c.IsUnsigned && g.TableID == c.TableID &&
		g.IsBinary == c.IsBinary
}

// SpecColFits: the stored size of column i is one its type allows.
func SpecColFits(c Columns, offs []uint64, i int) bool {
	n := offs[3+i]
	if i > 0 {
		n -= offs[2+i]
	}
	n &= 1<<30 - 1
	return SpecVar(c) || c.IsNUll && n == 0 || n == c.FieldLen
}
