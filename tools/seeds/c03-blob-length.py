id='c03-blob-length'; property='C03'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''			FormatBlobToHex := ParseBlob(data[:FieldLen])
			return FormatBlobToHex, nil''','''			FormatBlobToHex := ParseBlob(data)
			return FormatBlobToHex, nil''')]
needs='a BLOB column that is not the last field of its record'
breaks='A BLOB value is recovered with the bytes of the rest of the page after it.'
demo='''package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	data := []byte{0xDE, 0xAD, 0xBE, 0xEF, 1, 2, 3}
	for n := uint64(0); n <= 7; n++ {
		bin := true
		v, err := ParseData(DATA_BLOB, MYSQL_TYPE_BLOB, data, n, 0, false, &bin)
		if err != nil || v != fmt.Sprintf("%x", data[:n]) {
			t.Errorf("demo: BLOB of %d bytes recovered as %v, %v", n, v, err)
		}
	}
}
'''
