id='c04-size-threshold'; property='C04'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''	Num3, err := strconv.ParseInt("200000", 16, 64)
	Num4, err := strconv.ParseInt("10000000", 16, 64)''','''	Num3, err := strconv.ParseInt("1FFFFF", 16, 64)
	Num4, err := strconv.ParseInt("10000000", 16, 64)''')]
needs='a compressed integer equal to 0x1FFFFF, the last of the three byte ones'
breaks='The stored size of 0x1FFFFF is said to be four bytes when it takes three, so a reader that skips by this size loses its place.'
demo='''package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, v := range []uint64{0x7F, 0x80, 0x3FFF, 0x4000, 0x1FFFFE, 0x1FFFFF, 0x200000, 0xFFFFFFF, 0x10000000} {
		want := uint64(1)
		for _, lim := range []uint64{0x80, 0x4000, 0x200000, 0x10000000} {
			if v >= lim {
				want++
			}
		}
		if n, err := MatchGetCompressedSize(v); err != nil || n != want {
			t.Errorf("demo: size of %#x is %d, want %d", v, n, want)
		}
		if n := MachUllGetMuchCompressedSize(v); n != want {
			t.Errorf("demo: much compressed size of %#x is %d, want %d", v, n, want)
		}
	}
}
'''
