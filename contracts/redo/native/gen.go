package redo

import "math/rand"

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 2, 3, 4}[r.Intn(8)]
		case 2:
			b[i] = byte(i)
		default:
			b[i] = byte(r.Intn(3))
		}
	}
	return b
}

func init() {
	govcGens["Parse.readRedoBlockHeader"] = func(r *rand.Rand) []interface{} {
		return []interface{}{&Parse{}, genBytes(r, 512)}
	}
}
