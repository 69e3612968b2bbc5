package ibdata

import (
	"math/rand"

	"github.com/zbdba/db-recovery/recovery/utils"
)

func genCols(r *rand.Rand) []Columns {
	n := 1 + r.Intn(4)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(20)
	}
	cols := make([]Columns, n)
	for i := range cols {
		c := &cols[i]
		c.FieldName = string(rune('a' + i))
		c.FieldPos = uint64(i)
		c.IsNUll = r.Intn(2) == 0
		c.TableID = 7
		switch r.Intn(9) {
		case 0:
			c.FieldType, c.FieldLen = utils.DATA_VARCHAR, uint64(r.Intn(400))
		case 1:
			c.FieldType, c.FieldLen = utils.DATA_VARMYSQL, uint64(r.Intn(600))
		case 2:
			c.FieldType, c.FieldLen = utils.DATA_BLOB, uint64(9+r.Intn(4))
			c.IsBinary = r.Intn(2) == 0
			c.MySQLType = utils.MYSQL_TYPE_BLOB
		case 3:
			c.FieldType, c.FieldLen, c.MySQLType = utils.DATA_BINARY, uint64(r.Intn(300)), utils.MYSQL_TYPE_VARCHAR
		case 4:
			c.FieldType, c.FieldLen, c.MySQLType = utils.DATA_FIXBINARY, 5, utils.MYSQL_TYPE_DATETIME
		case 5:
			c.FieldType, c.FieldLen, c.MySQLType = utils.DATA_FIXBINARY, uint64(r.Intn(20)), utils.MYSQL_TYPE_STRING
		case 6:
			c.FieldType, c.FieldLen = utils.DATA_MYSQL, uint64(r.Intn(300))
		default:
			c.FieldType, c.FieldLen = utils.DATA_INT, []uint64{1, 2, 3, 4, 8}[r.Intn(5)]
			c.IsUnsigned = r.Intn(2) == 0
		}
	}
	return cols
}

func genTable(r *rand.Rand) Tables {
	t := Tables{Columns: genCols(r)}
	for _, c := range t.Columns {
		if c.IsNUll {
			t.NullCount++
		}
	}
	return t
}

// genRec is page content and the place of a record in it.
func genRec(r *rand.Rand, n int) ([]byte, uint64) {
	d := make([]byte, 200+4*n+r.Intn(400))
	mode := r.Intn(3)
	for i := range d {
		switch {
		case mode == 0 || r.Intn(6) == 0:
			d[i] = byte(r.Intn(256))
		case mode == 1:
			d[i] = byte(r.Intn(30))
		default:
			d[i] = []byte{0, 0x80, 0xc0, 0x81, 0xff, 1, 2, 0x40}[r.Intn(8)]
		}
	}
	rec := 16 + 4*n + r.Intn(60)
	if r.Intn(10) == 0 {
		rec = r.Intn(40)
	}
	return d, uint64(rec)
}

func genOffs(r *rand.Rand, cols []Columns) []uint64 {
	offs := make([]uint64, len(cols)+3)
	offs[1] = uint64(len(cols))
	var e uint64
	for i, c := range cols {
		switch {
		case c.IsNUll && r.Intn(2) == 0:
			offs[3+i] = e | 1<<31
		default:
			n := c.FieldLen
			if utils.GetFixedLength(c.FieldType, c.FieldLen) == 0 {
				n = uint64(r.Intn(12))
			} else if r.Intn(12) == 0 {
				n = uint64(r.Intn(9))
			}
			e += n
			offs[3+i] = e
			if r.Intn(9) == 0 {
				offs[3+i] |= 1 << 30
			}
		}
	}
	return offs
}

func init() {
	govcGens["Parse.ibRecInitOffsetsNew"] = func(r *rand.Rand) []interface{} {
		t := genTable(r)
		d, rec := genRec(r, len(t.Columns))
		offs := make([]uint64, len(t.Columns)+3)
		return []interface{}{&Parse{}, d, rec, d[rec:], &offs, t}
	}
	govcGens["Parse.ibRecInitOffsetsOld"] = func(r *rand.Rand) []interface{} {
		n := 1 + r.Intn(20)
		d, rec := genRec(r, n)
		offs := make([]uint64, n+3)
		return []interface{}{&Parse{}, d, rec, d[rec:], &offs, uint64(n)}
	}
	govcGens["Parse.parseRecords"] = func(r *rand.Rand) []interface{} {
		cols := genCols(r)
		d, rec := genRec(r, len(cols))
		return []interface{}{&Parse{}, d, d[rec:], genOffs(r, cols), cols}
	}
	govcGens["Parse.checkFieldSize"] = func(r *rand.Rand) []interface{} {
		cols := genCols(r)
		offs := genOffs(r, cols)
		return []interface{}{&Parse{}, &offs, cols}
	}
}
