package utils

// Specification functions: what a stored column value means.

import (
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"time"
)

// SpecLE is the little-endian value of the first n bytes.
func SpecLE(b []byte, n int) uint64 {
	switch n {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(b[1])<<8 | uint64(b[0])
	case 3:
		return uint64(b[2])<<16 | uint64(b[1])<<8 | uint64(b[0])
	case 4:
		return uint64(b[3])<<24 | uint64(b[2])<<16 | uint64(b[1])<<8 | uint64(b[0])
	}
	return uint64(b[7])<<56 | uint64(b[6])<<48 | uint64(b[5])<<40 | uint64(b[4])<<32 |
		uint64(b[3])<<24 | uint64(b[2])<<16 | uint64(b[1])<<8 | uint64(b[0])
}

// SpecLEk is the little-endian value of the first k bytes (modulo 2^64).
func SpecLEk(b []byte, k int) uint64 {
	if k <= 0 {
		return 0
	}
	return SpecLEk(b, k-1) | uint64(b[k-1])<<(uint(k-1)*8)
}

// SpecSame: two recovered values are the same to every reader (integers of any Go type by number).
func SpecSame(a, b interface{}) bool {
	if SpecIsInt(a) && SpecIsInt(b) {
		return SpecIntOf(a) == SpecIntOf(b)
	}
	if x, ok := a.(uint64); ok {
		if y, ok2 := b.(uint64); ok2 {
			return x == y
		}
		return false
	}
	if x, ok := a.(float32); ok {
		if y, ok2 := b.(float32); ok2 {
			return math.Float32bits(x) == math.Float32bits(y)
		}
		return false
	}
	if x, ok := a.(float64); ok {
		if y, ok2 := b.(float64); ok2 {
			return math.Float64bits(x) == math.Float64bits(y)
		}
		return false
	}
	return a == b
}

// SpecDate: 3 bytes, sign bit inverted; day 5 bits, month 4 bits, year above.
func SpecDate(b []byte) string {
	v := SpecBE(b, 3) & 0x7fffff
	return fmt.Sprintf("%04d-%02d-%02d", v>>9, v>>5&15, v&31)
}

// SpecTime: TIME(0) of 5.6 and later: 3 bytes around 0x800000; 10 bits hour, 6 minute, 6 second.
func SpecTime(b []byte) string {
	v := SpecBE(b, 3)
	if v < 0x800000 {
		m := 0x800000 - v
		return "-" + fmt.Sprintf("%02d:%02d:%02d", m>>12&0x3ff, m>>6&63, m&63)
	}
	m := v - 0x800000
	return fmt.Sprintf("%02d:%02d:%02d", m>>12&0x3ff, m>>6&63, m&63)
}

// SpecTimestamp: 4 bytes, seconds of the epoch; 0 is the zero date.
func SpecTimestamp(b []byte) string {
	t := SpecBE(b, 4)
	if t == 0 {
		return "0000-00-00 00:00:00"
	}
	return time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
}

// SpecDatetime: 5 bytes: 1 sign bit, 17 bits year*13+month, 5 day, 5 hour, 6 minute, 6 second.
func SpecDatetime(b []byte) string {
	v := uint64(b[0])<<32 | SpecBE4(b, 1)
	ym := v >> 22 & 0x1ffff
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", ym/13, ym-ym/13*13, v>>17&31, v>>12&31, v>>6&63, v&63)
}

// SpecDecimalDatetime: the 8 byte form of old servers, a decimal number YYYYMMDDhhmmss.
func SpecDecimalDatetime(b []byte) bool {
	return len(b) >= 8 && !(SpecBE(b, 8)>>63 == 1 && SpecBE(b, 8)>>46&0x1ffff >= 13)
}

// SpecYear: 1 byte, years since 1900; 0 is the zero year.
func SpecYear(b []byte) interface{} {
	if b[0] == 0 {
		return "0000"
	}
	return uint64(b[0]) + 1900
}

// SpecFits: the field is long enough for its type to be decoded.
func SpecFits(dt, mt uint64, n int, fieldLen uint64, fix int, unsigned bool) bool {
	if fieldLen > uint64(n) {
		return false
	}
	f := int(fieldLen)
	switch dt {
	case DATA_FIXBINARY:
		switch mt {
		case MYSQL_TYPE_TIME:
			return f >= 3
		case MYSQL_TYPE_TIMESTAMP:
			return f >= 4
		case MYSQL_TYPE_DATETIME:
			return f >= 5
		case MYSQL_TYPE_BIT:
			return fix > 8 || f >= fix
		}
	case DATA_BINARY:
		if mt != MYSQL_TYPE_VARCHAR && fix != 0 {
			return fix > 8 || f >= fix
		}
	case DATA_INT:
		if mt == MYSQL_TYPE_DATE {
			return f >= 3
		}
		if mt == MYSQL_TYPE_YEAR {
			return f >= 1
		}
		return fix > 8 || f >= fix
	case DATA_FLOAT:
		return f >= 4
	case DATA_DOUBLE:
		return f >= 8
	}
	return true
}

// SpecKnown: the value of such a column is specified (see SpecValue).
func SpecKnown(dt, mt uint64, b []byte, fieldLen uint64, fix int, unsigned bool) bool {
	switch dt {
	case DATA_VARCHAR, DATA_CHAR, DATA_VARMYSQL, DATA_MYSQL, DATA_BLOB, DATA_FLOAT, DATA_DOUBLE:
		return true
	case DATA_FIXBINARY:
		switch mt {
		case MYSQL_TYPE_TIME, MYSQL_TYPE_TIMESTAMP, MYSQL_TYPE_STRING:
			return true
		case MYSQL_TYPE_DATETIME:
			return !SpecDecimalDatetime(b[:fieldLen])
		case MYSQL_TYPE_BIT:
			return 1 <= fix && fix <= 8
		}
	case DATA_BINARY:
		return mt == MYSQL_TYPE_VARCHAR || fix == 0 || 1 <= fix && fix <= 8
	case DATA_INT:
		if mt == MYSQL_TYPE_DATE || mt == MYSQL_TYPE_YEAR {
			return true
		}
		if unsigned {
			return 1 <= fix && fix <= 8
		}
		return fix == 1 || fix == 2 || fix == 3 || fix == 4 || fix == 8
	}
	return false
}

// SpecValue is the value a column of the given type stores in the first fieldLen bytes of b.
func SpecValue(dt, mt uint64, b []byte, fieldLen uint64, fix int, unsigned bool, binary bool) interface{} {
	switch dt {
	case DATA_VARCHAR, DATA_CHAR, DATA_VARMYSQL:
		return string(b[:fieldLen])
	case DATA_MYSQL:
		return strings.TrimRight(string(b[:fieldLen]), " ")
	case DATA_BLOB:
		if binary {
			return hex.EncodeToString(b[:fieldLen])
		}
		return string(b[:fieldLen])
	case DATA_FLOAT:
		return math.Float32frombits(uint32(SpecLE(b, 4)))
	case DATA_DOUBLE:
		return math.Float64frombits(SpecLE(b, 8))
	case DATA_FIXBINARY:
		switch mt {
		case MYSQL_TYPE_TIME:
			return SpecTime(b)
		case MYSQL_TYPE_TIMESTAMP:
			return SpecTimestamp(b)
		case MYSQL_TYPE_DATETIME:
			return SpecDatetime(b)
		case MYSQL_TYPE_BIT:
			return SpecBE(b, fix)
		}
		return hex.EncodeToString(b[:fieldLen])
	case DATA_BINARY:
		if mt == MYSQL_TYPE_VARCHAR {
			return hex.EncodeToString(b[:fieldLen])
		}
		if fix != 0 {
			return SpecBE(b, fix)
		}
		return string(b[:fieldLen])
	case DATA_INT:
		if mt == MYSQL_TYPE_DATE {
			return SpecDate(b)
		}
		if mt == MYSQL_TYPE_YEAR {
			return SpecYear(b)
		}
		if unsigned {
			return SpecBE(b, fix)
		}
		return SpecSigned(b, fix)
	}
	return nil
}

// SpecBinary: the value is shown in hexadecimal.
func SpecBinary(dt, mt uint64, binary bool) bool {
	return binary || dt == DATA_FIXBINARY && mt == MYSQL_TYPE_STRING || dt == DATA_BINARY && mt == MYSQL_TYPE_VARCHAR
}

// SpecVarType: values of the type have a stored length.
func SpecVarType(dt uint64) bool {
	return dt == DATA_VARCHAR || dt == DATA_BINARY || dt == DATA_BLOB || dt == DATA_VARMYSQL || dt == DATA_MYSQL
}

// SpecColStart: where column n of a record starts, by the end offsets of its columns.
func SpecColStart(offs []uint64, n int) uint64 {
	if n == 0 {
		return 0
	}
	return offs[2+n] & (1<<30 - 1)
}

// SpecColLen: the length of column n of a record; 0xFFFFFFFF if it is NULL.
func SpecColLen(offs []uint64, n int) uint64 {
	if offs[3+n]&(1<<31) != 0 {
		return 0xFFFFFFFF
	}
	return offs[3+n]&(1<<30-1) - SpecColStart(offs, n)
}

// SpecSlice: r is the slice b[k:].
func SpecSlice(r, b []byte, k int) bool {
	return len(r) == len(b)-k && (cap(r) == 0 || &r[:1][0] == &b[k:][:1][0])
}
