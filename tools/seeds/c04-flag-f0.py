id='c04-flag-f0'; property='C04'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''	} else if int64(flag) < Num4 {''','''	} else if int64(flag) <= Num4 {''')]
needs='a compressed integer of 2^28 or more, whose first byte is 0xF0'
breaks='A five byte compressed integer is read as four bytes, so the value is wrong and everything after it is read one byte early.'
demo='''package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []uint64{0x0FFFFFFF, 0x10000000, 0x12345678, 0xFFFFFFFF} {
		var b []byte
		if v < 0x10000000 {
			b = []byte{byte(v>>24) | 0xE0, byte(v >> 16), byte(v >> 8), byte(v)}
		} else {
			b = []byte{0xF0, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
		}
		n, size, err := MatchParseCompressed(append([]byte{9}, b...), 1)
		if err != nil || n != v || size != uint64(len(b)) {
			t.Errorf("demo: compressed %#x read as %#x, %d bytes, %v", v, n, size, err)
		}
	}
}
'''
