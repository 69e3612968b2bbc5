id='c01-int-min'; property='C01'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''		if IntValue > (IntRange/2 - 1) {''','''		if IntValue > IntRange/2 {''')]
needs='a signed INT column holding the smallest value, -2147483648'
breaks='The INT value -2147483648 is recovered as 2147483648.'
demo='''package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 2147483647, -2147483648, -2147483647} {
		s := uint32(v + 0x80000000)
		b := []byte{byte(s >> 24), byte(s >> 16), byte(s >> 8), byte(s)}
		if got := fmt.Sprint(GetIntValue(4, b)); got != fmt.Sprint(v) {
			t.Errorf("demo: INT %d recovered as %s", v, got)
		}
	}
}
'''
