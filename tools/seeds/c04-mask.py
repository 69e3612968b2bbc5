id='c04-mask'; property='C04'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''	Num6, err := strconv.ParseInt("3FFFFF", 16, 64)''','''	Num6, err := strconv.ParseInt("1FFFF", 16, 64)''')]
needs='a three byte compressed integer above 131071 (a large table or page number)'
breaks='Three byte compressed integers lose their high bits.'
demo='''package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []uint64{0x4000, 0x10000, 0x1FFFF, 0x20000, 0x1ABCDE, 0x1FFFFF} {
		b := []byte{byte(v>>16) | 0xC0, byte(v >> 8), byte(v)}
		n, size, err := MatchParseCompressed(b, 0)
		if err != nil || n != v || size != 3 {
			t.Errorf("demo: compressed %#x read as %#x, %d bytes, %v", v, n, size, err)
		}
	}
}
'''
