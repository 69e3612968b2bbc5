package ibdata

import (
	"fmt"

	"github.com/zbdba/db-recovery/recovery/utils"
)

// The columns the engine adds to every row.
func SpecInternal(c Columns) bool {
	return c.FieldName == "DB_ROW_ID" || c.FieldName == "DB_TRX_ID" || c.FieldName == "DB_ROLL_PTR"
}

// The literal of a column value.
func SpecLiteral(c Columns) string {
	if c.FieldValue == nil {
		return "NULL"
	}
	if c.MySQLType == 16 {
		return fmt.Sprintf("b'%b'", c.FieldValue)
	}
	v := fmt.Sprintf("%v", c.FieldValue)
	q := "'" + utils.SpecEsc(v, len(v)) + "'"
	if c.IsBinary {
		return "unhex(" + q + ")"
	}
	return q
}

// Whether one of the first n columns is printed.
func SpecAnyUser(cols []Columns, n int) bool {
	if n <= 0 {
		return false
	}
	return !SpecInternal(cols[n-1]) || SpecAnyUser(cols, n-1)
}

// The value list of the first n columns.
func SpecList(cols []Columns, n int) string {
	if n <= 0 {
		return ""
	}
	if SpecInternal(cols[n-1]) {
		return SpecList(cols, n-1)
	}
	if SpecAnyUser(cols, n-1) {
		return SpecList(cols, n-1) + "," + SpecLiteral(cols[n-1])
	}
	return SpecList(cols, n-1) + SpecLiteral(cols[n-1])
}

func SpecInto(db, table string) string {
	return "replace into `" + db + "`.`" + table + "` values ("
}

// The statements of the first n rows, one to a line.
func SpecStatements(rows [][]Columns, n int, db, table string) string {
	if n <= 0 {
		return ""
	}
	return SpecStatements(rows, n-1, db, table) + SpecInto(db, table) + SpecList(rows[n-1], len(rows[n-1])) + ");\n"
}
