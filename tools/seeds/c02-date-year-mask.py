id='c02-date-year-mask'; property='C02'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''	year = int(ldate)''','''	year = int(ldate & 0x1FFF)''')]
needs='a DATE in year 8192 or later, such as the sentinel 9999-12-31'
breaks='DATE values from year 8192 on are recovered 8192 years early.'
demo='''package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, c := range [][3]int{{2020, 2, 29}, {0, 0, 0}, {1000, 1, 1}, {8191, 12, 31}, {9999, 12, 31}} {
		s := c[0]*512 + c[1]*32 + c[2] | 0x800000
		want := fmt.Sprintf("%04d-%02d-%02d", c[0], c[1], c[2])
		if got := ParseDate([]byte{byte(s >> 16), byte(s >> 8), byte(s)}); got != want {
			t.Errorf("demo: DATE %s recovered as %s", want, got)
		}
	}
}
'''
