id='c02-time-hours'; property='C02'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''		hour = uint((ltime & 0x3FF000) >> 12)''','''		hour = uint((ltime & 0x1FF000) >> 12)''')]
needs='a TIME of 512 hours or more (the type reaches 838:59:59)'
breaks='TIME values of 512 hours and more lose 512 hours.'
demo='''package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, c := range [][3]int{{1, 2, 3}, {23, 59, 59}, {511, 0, 1}, {512, 0, 0}, {838, 59, 59}} {
		s := c[0]<<12 | c[1]<<6 | c[2] + 0x800000
		want := fmt.Sprintf("%02d:%02d:%02d", c[0], c[1], c[2])
		if got := ParseTime([]byte{byte(s >> 16), byte(s >> 8), byte(s)}); got != want {
			t.Errorf("demo: TIME %s recovered as %s", want, got)
		}
	}
}
'''
