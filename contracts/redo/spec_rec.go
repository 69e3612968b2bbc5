package redo

import (
	"strconv"

	"github.com/zbdba/db-recovery/recovery/utils"
)

// Specification functions: the extent of redo log records. Each SpecXEnd(data, pos, …) is the
// position after the record body (or record) that starts at pos, or 0 if no whole one lies there.
// The formats are those of storage/innobase in the server: mtr0log.cc, page0cur.cc, btr0cur.cc,
// row0upd.cc, page0page.cc, page0zip.cc, trx0rec.cc, trx0undo.cc, fil0fil.cc.

// SpecStringEnd: a two-byte length and that many bytes.
func SpecStringEnd(data []byte, pos uint64) uint64 {
	p := utils.SpecFixEnd(data, pos, 2)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, SpecLen(data, pos))
}

// SpecLen: a two-byte length.
func SpecLen(data []byte, pos uint64) uint64 { return SpecU(data, int(pos), 2) }

// SpecNBytesEnd: page offset and the new value, compressed; an 8 byte value has a compressed
// high word and a plain low word.
func SpecNBytesEnd(data []byte, pos uint64, t uint64) uint64 {
	p := utils.SpecFixEnd(data, pos, 2)
	if p == 0 {
		return 0
	}
	q := utils.SpecCompEnd(data, p)
	if q == 0 || t != 8 {
		return q
	}
	if utils.SpecCompSizeOf(utils.SpecComp(data[p:])) != utils.SpecCompSize(data[p]) {
		return 0
	}
	return utils.SpecFixEnd(data, q, 4)
}

// SpecUndoHdrEnd: a transaction id: a compressed high word in its shortest form, a plain low word.
func SpecUndoHdrEnd(data []byte, pos uint64) uint64 {
	q := utils.SpecCompEnd(data, pos)
	if q == 0 || utils.SpecCompSizeOf(utils.SpecComp(data[pos:])) != utils.SpecCompSize(data[pos]) {
		return 0
	}
	return utils.SpecFixEnd(data, q, 4)
}

// SpecFileOpEnd: flags for CREATE2; a name; for a rename, the new name.
func SpecFileOpEnd(data []byte, pos uint64, t uint64) uint64 {
	p := pos
	if t == 47 {
		p = utils.SpecFixEnd(data, pos, 4)
		if p == 0 {
			return 0
		}
	}
	p = SpecStringEnd(data, p)
	if p == 0 || t != 34 && t != 54 {
		return p
	}
	return SpecStringEnd(data, p)
}

func SpecInsertRecEnd(data []byte, pos uint64, comp bool) uint64 {
	p := utils.SpecIndexEnd(comp, data, pos)
	if p == 0 {
		return 0
	}
	return utils.SpecInsertEnd(false, data, p)
}

// SpecClustMarkEnd: index, flags, mark, position of the transaction id, roll pointer, transaction
// id, page offset.
func SpecClustMarkEnd(data []byte, pos uint64, comp bool) uint64 {
	p := utils.SpecIndexEnd(comp, data, pos)
	if p == 0 {
		return 0
	}
	p = utils.SpecFixEnd(data, p, 2)
	if p == 0 {
		return 0
	}
	p = utils.SpecCompEnd(data, p)
	if p == 0 {
		return 0
	}
	p = utils.SpecFixEnd(data, p, 7)
	if p == 0 {
		return 0
	}
	p = utils.SpecUllEnd(data, p)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, 2)
}

// SpecFieldsEnd: n fields of an update: number, length, data unless the value is NULL.
func SpecFieldsEnd(data []byte, pos uint64, n uint64) uint64 {
	if n == 0 {
		return pos
	}
	p := utils.SpecCompEnd(data, pos)
	if p == 0 {
		return 0
	}
	q := utils.SpecCompEnd(data, p)
	if q == 0 {
		return 0
	}
	l := utils.SpecComp(data[p:])
	if l != 0xFFFFFFFF {
		q = utils.SpecFixEnd(data, q, l)
		if q == 0 {
			return 0
		}
	}
	return SpecFieldsEnd(data, q, n-1)
}

// SpecUpdHeadEnd: index, flags, position of the transaction id, roll pointer, transaction id,
// page offset, info bits: up to the number of fields.
func SpecUpdHeadEnd(data []byte, pos uint64, comp bool) uint64 {
	p := utils.SpecIndexEnd(comp, data, pos)
	if p == 0 {
		return 0
	}
	p = utils.SpecFixEnd(data, p, 1)
	if p == 0 {
		return 0
	}
	p = utils.SpecCompEnd(data, p)
	if p == 0 {
		return 0
	}
	p = utils.SpecFixEnd(data, p, 7)
	if p == 0 {
		return 0
	}
	p = utils.SpecUllEnd(data, p)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, 3)
}

func SpecUpdateEnd(data []byte, pos uint64, comp bool) uint64 {
	p := SpecUpdHeadEnd(data, pos, comp)
	if p == 0 {
		return 0
	}
	q := utils.SpecCompEnd(data, p)
	if q == 0 {
		return 0
	}
	return SpecFieldsEnd(data, q, utils.SpecComp(data[p:]))
}

// SpecIndexPlusEnd: index and n bytes.
func SpecIndexPlusEnd(data []byte, pos uint64, comp bool, n uint64) uint64 {
	p := utils.SpecIndexEnd(comp, data, pos)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, n)
}

// SpecRecsEnd: short insert records up to exactly end.
func SpecRecsEnd(data []byte, pos uint64, end uint64) uint64 {
	if pos == end {
		return end
	}
	p := utils.SpecInsertEnd(true, data, pos)
	if p <= pos || p > end {
		return 0
	}
	return SpecRecsEnd(data, p, end)
}

// SpecCopyEnd: index, the length of the records, the records.
func SpecCopyEnd(data []byte, pos uint64, comp bool) uint64 {
	p := utils.SpecIndexEnd(comp, data, pos)
	if p == 0 {
		return 0
	}
	q := utils.SpecFixEnd(data, p, 4)
	if q == 0 {
		return 0
	}
	end := utils.SpecFixEnd(data, q, SpecU4(data, int(p)))
	if end == 0 {
		return 0
	}
	return SpecRecsEnd(data, q, end)
}

func SpecReorganizeEnd(data []byte, pos uint64, t uint64) uint64 {
	if t == 18 {
		return pos
	}
	if t == 53 {
		return SpecIndexPlusEnd(data, pos, true, 1)
	}
	return utils.SpecIndexEnd(true, data, pos)
}

// SpecZipHeaderEnd: offset, length, data.
func SpecZipHeaderEnd(data []byte, pos uint64) uint64 {
	p := utils.SpecFixEnd(data, pos, 2)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, uint64(data[pos+1]))
}

// SpecZipCompressEnd: size, trailer size, the two page links, data, trailer.
func SpecZipCompressEnd(data []byte, pos uint64) uint64 {
	p := utils.SpecFixEnd(data, pos, 12)
	if p == 0 {
		return 0
	}
	return utils.SpecFixEnd(data, p, SpecU(data, int(pos), 2)+SpecU(data, int(pos)+2, 2))
}

// SpecKnownType: the record types of the supported server versions.
func SpecKnownType(t uint64) bool {
	return t == 1 || t == 2 || t == 4 || t >= 8 && t <= 11 || t >= 13 && t <= 27 || t >= 29 && t <= 61
}

// SpecBodyEnd: the body of a record of type t, which follows the type, space and page.
func SpecBodyEnd(data []byte, pos uint64, t uint64) uint64 {
	switch t {
	case 1, 2, 4, 8:
		return SpecNBytesEnd(data, pos, t)
	case 9, 38:
		return SpecInsertRecEnd(data, pos, t == 38)
	case 10, 39:
		return SpecClustMarkEnd(data, pos, t == 39)
	case 11:
		return utils.SpecFixEnd(data, pos, 3)
	case 13, 41:
		return SpecUpdateEnd(data, pos, t == 41)
	case 14, 42:
		return SpecIndexPlusEnd(data, pos, t == 42, 2)
	case 15, 16, 43, 44:
		return SpecIndexPlusEnd(data, pos, t == 43 || t == 44, 2)
	case 17, 45:
		return SpecCopyEnd(data, pos, t == 45)
	case 18, 46, 53:
		return SpecReorganizeEnd(data, pos, t)
	case 20:
		return SpecStringEnd(data, pos)
	case 22:
		return utils.SpecCompEnd(data, pos)
	case 24:
		return utils.SpecUllEnd(data, pos)
	case 25:
		return SpecUndoHdrEnd(data, pos)
	case 26, 36:
		return utils.SpecFixEnd(data, pos, 2)
	case 30:
		if utils.SpecFixEnd(data, pos, 2) == 0 {
			return 0
		}
		return SpecStringEnd(data, pos+2)
	case 33, 34, 35, 47, 54, 55:
		return SpecFileOpEnd(data, pos, t)
	case 40:
		return SpecIndexPlusEnd(data, pos, true, 3)
	case 48:
		return utils.SpecFixEnd(data, pos, 8)
	case 49:
		return utils.SpecFixEnd(data, pos, 24)
	case 50:
		return SpecZipHeaderEnd(data, pos)
	case 51:
		return SpecZipCompressEnd(data, pos)
	case 52:
		return SpecIndexPlusEnd(data, pos, true, 1)
	case 60, 61:
		return utils.SpecFixEnd(data, pos, 8)
	}
	return pos
}

// SpecRecordEnd: a whole record, or a byte that cannot start one.
func SpecRecordEnd(data []byte, pos uint64) uint64 {
	if pos >= uint64(len(data)) {
		return 0
	}
	t := uint64(data[pos])
	if t == 31 || t == 32 {
		return pos + 1
	}
	t &= 0x7f
	if t == 56 {
		return utils.SpecFixEnd(data, pos+1, 8)
	}
	p := utils.SpecCompEnd(data, pos+1)
	if p == 0 {
		return 0
	}
	p = utils.SpecCompEnd(data, p)
	if p == 0 {
		return 0
	}
	if !SpecKnownType(t) {
		return pos + 1
	}
	return SpecBodyEnd(data, p, t)
}

// SpecLogOk: from pos on the log is a sequence of whole records. Fewer than five bytes are no
// record that matters: the shortest one with a body has a type, a space, a page and two bytes.
func SpecLogOk(data []byte, pos uint64) bool {
	if pos > uint64(len(data)) {
		return false
	}
	if uint64(len(data))-pos < 5 {
		return true
	}
	end := SpecRecordEnd(data, pos)
	return end != 0 && SpecLogOk(data, end)
}

// SpecUndoAt stands for the interpretation of the undo record body at pos.
func SpecUndoAt(pos uint64) string {
	return strconv.FormatUint(pos, 10) + ";"
}

// SpecLogUndo: the undo records of the log from pos on, in order.
func SpecLogUndo(data []byte, pos uint64) string {
	if pos > uint64(len(data)) || uint64(len(data))-pos < 5 {
		return ""
	}
	end := SpecRecordEnd(data, pos)
	if end == 0 {
		return ""
	}
	t := data[pos]
	if t&0x7f == 20 && t != 31 && t != 32 {
		return SpecUndoAt(utils.SpecCompEnd(data, utils.SpecCompEnd(data, pos+1))) + SpecLogUndo(data, end)
	}
	return SpecLogUndo(data, end)
}
