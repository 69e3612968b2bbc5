package redo

import (
	"fmt"

	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/utils"
)

// The literal of a value that is not NULL.
func SpecLiteral(value interface{}, mySQLType uint64, isBinary bool) string {
	if mySQLType == 16 {
		return fmt.Sprintf("b'%b'", value)
	}
	v := fmt.Sprintf("%v", value)
	q := "'" + utils.SpecEsc(v, len(v)) + "'"
	if isBinary {
		return "unhex(" + q + ")"
	}
	return q
}

func SpecSetItem(c ibdata.Columns) string {
	if c.FieldValue == nil {
		return "`" + c.FieldName + "`=NULL"
	}
	return "`" + c.FieldName + "`=" + SpecLiteral(c.FieldValue, c.MySQLType, c.IsBinary)
}

// The first n assignments, each followed by a comma.
func SpecSetSep(cols []*ibdata.Columns, n int) string {
	if n <= 0 {
		return ""
	}
	return SpecSetSep(cols, n-1) + SpecSetItem(*cols[n-1]) + ","
}

func SpecSet(cols []*ibdata.Columns) string {
	if len(cols) == 0 {
		return ""
	}
	return SpecSetSep(cols, len(cols)-1) + SpecSetItem(*cols[len(cols)-1])
}

func SpecKeyItem(f ibdata.Fields) string {
	return "`" + f.ColumnName + "`=" + SpecLiteral(f.ColumnValue, f.MySQLType, f.IsBinary)
}

// The first n conditions, each followed by and.
func SpecKeySep(keys []*ibdata.Fields, n int) string {
	if n <= 0 {
		return ""
	}
	return SpecKeySep(keys, n-1) + SpecKeyItem(*keys[n-1]) + " and "
}

func SpecKey(keys []*ibdata.Fields) string {
	if len(keys) == 0 {
		return ""
	}
	return SpecKeySep(keys, len(keys)-1) + SpecKeyItem(*keys[len(keys)-1])
}

func SpecUpdate(table ibdata.Tables, keys []*ibdata.Fields, cols []*ibdata.Columns) string {
	return "update `" + table.DBName + "`.`" + table.TableName + "` set " + SpecSet(cols) + " where " + SpecKey(keys) + ";\n"
}
