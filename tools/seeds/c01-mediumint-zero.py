id='c01-mediumint-zero'; property='C01'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''		if (v3 >> 23) == 1 {''','''		if v3 > 1<<23 {''')]
needs='a signed MEDIUMINT column holding exactly 0'
breaks='The MEDIUMINT value 0 is recovered as -16777216 instead of 0; every other value is right.'
demo='''package utils

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 8388607, -8388608, 77} {
		s := uint32(v+0x800000) & 0xFFFFFF
		b := []byte{byte(s >> 16), byte(s >> 8), byte(s)}
		if got := fmt.Sprint(GetIntValue(3, b)); got != fmt.Sprint(v) {
			t.Errorf("demo: MEDIUMINT %d recovered as %s", v, got)
		}
	}
}
'''
