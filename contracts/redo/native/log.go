package redo

import "math/rand"

// Redo records for replay: bodies of every type as the server writes them.

func genComp(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0, 1, 2:
		return uint64(r.Intn(0x80))
	case 3:
		return uint64(r.Intn(0x4000))
	case 4:
		return uint64(r.Intn(0x200000))
	case 5:
		return uint64(r.Intn(0x10000000))
	case 6:
		return []uint64{0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xffffffff, 0}[r.Intn(10)]
	}
	return uint64(r.Uint32())
}

func putComp(b []byte, v uint64) []byte {
	switch {
	case v < 0x80:
		return append(b, byte(v))
	case v < 0x4000:
		return append(b, byte(v>>8)|0x80, byte(v))
	case v < 0x200000:
		return append(b, byte(v>>16)|0xC0, byte(v>>8), byte(v))
	case v < 0x10000000:
		return append(b, byte(v>>24)|0xE0, byte(v>>16), byte(v>>8), byte(v))
	}
	return append(b, 0xF0, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func rnd(r *rand.Rand, b []byte, n int) []byte { return append(b, genBytes(r, n)...) }

func genIndex(r *rand.Rand, b []byte, comp bool) []byte {
	if !comp {
		return b
	}
	n := r.Intn(6)
	if r.Intn(8) == 0 {
		n = 100 + r.Intn(200)
	}
	b = append(b, byte(n>>8), byte(n), 0, 1)
	return rnd(r, b, 2*n)
}

func genIns(r *rand.Rand, b []byte, short bool) []byte {
	if !short {
		b = rnd(r, b, 2)
	}
	n := r.Intn(40)
	if r.Intn(4) == 0 {
		n = 100 + r.Intn(300)
	}
	x := r.Intn(2)
	b = putComp(b, uint64(n<<1|x))
	if x == 1 {
		b = rnd(r, b, 1)
		b = putComp(b, genComp(r))
		b = putComp(b, genComp(r))
	}
	return rnd(r, b, n)
}

func genStr(r *rand.Rand, b []byte) []byte {
	n := r.Intn(30)
	if r.Intn(8) == 0 {
		n = 250 + r.Intn(40)
	}
	b = append(b, byte(n>>8), byte(n))
	return rnd(r, b, n)
}

func genBody(r *rand.Rand, b []byte, t int) []byte {
	switch t {
	case 1, 2, 4, 8:
		b = rnd(r, b, 2)
		b = putComp(b, genComp(r))
		if t == 8 {
			b = rnd(r, b, 4)
		}
	case 9, 38:
		b = genIns(r, genIndex(r, b, t == 38), false)
	case 10, 39:
		b = rnd(r, genIndex(r, b, t == 39), 2)
		b = putComp(b, genComp(r))
		b = rnd(r, b, 7)
		b = rnd(r, putComp(b, genComp(r)), 4)
		b = rnd(r, b, 2)
	case 11:
		b = rnd(r, b, 3)
	case 13, 41:
		b = rnd(r, genIndex(r, b, t == 41), 1)
		b = putComp(b, genComp(r))
		b = rnd(r, b, 7)
		b = rnd(r, putComp(b, genComp(r)), 4)
		b = rnd(r, b, 3)
		n := r.Intn(4)
		b = putComp(b, uint64(n))
		for i := 0; i < n; i++ {
			b = putComp(b, uint64(r.Intn(200)))
			if r.Intn(3) == 0 {
				b = putComp(b, 0xFFFFFFFF)
				continue
			}
			l := r.Intn(200)
			b = rnd(r, putComp(b, uint64(l)), l)
		}
	case 14, 15, 16, 42, 43, 44:
		b = rnd(r, genIndex(r, b, t >= 42), 2)
	case 17, 45:
		b = genIndex(r, b, t == 45)
		var in []byte
		for n := r.Intn(4); n > 0; n-- {
			in = genIns(r, in, true)
		}
		b = append(b, byte(len(in)>>24), byte(len(in)>>16), byte(len(in)>>8), byte(len(in)))
		b = append(b, in...)
	case 46:
		b = genIndex(r, b, true)
	case 53:
		b = rnd(r, genIndex(r, b, true), 1)
	case 20:
		b = genStr(r, b)
	case 22:
		b = putComp(b, genComp(r))
	case 24, 25:
		b = rnd(r, putComp(b, genComp(r)), 4)
	case 26, 36:
		b = rnd(r, b, 2)
	case 30:
		b = genStr(r, rnd(r, b, 2))
	case 33, 35, 55:
		b = genStr(r, b)
	case 47:
		b = genStr(r, rnd(r, b, 4))
	case 34, 54:
		b = genStr(r, genStr(r, b))
	case 40:
		b = rnd(r, genIndex(r, b, true), 3)
	case 48, 60, 61, 56:
		b = rnd(r, b, 8)
	case 49:
		b = rnd(r, b, 24)
	case 50:
		n := r.Intn(256)
		b = append(b, byte(r.Intn(256)), byte(n))
		b = rnd(r, b, n)
	case 51:
		n, m := r.Intn(200), r.Intn(100)
		b = append(b, byte(n>>8), byte(n), byte(m>>8), byte(m))
		b = rnd(r, b, 8+n+m)
	case 52:
		b = rnd(r, genIndex(r, b, true), 1)
	}
	return b
}

var genTypes = []int{1, 2, 4, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 32,
	33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61}

func genRecord(r *rand.Rand, b []byte) []byte {
	t := genTypes[r.Intn(len(genTypes))]
	if r.Intn(4) == 0 {
		t = 20
	}
	if r.Intn(20) == 0 {
		t = []int{0, 3, 5, 12, 28, 62, 63, 100}[r.Intn(8)]
	}
	b = append(b, byte(t))
	if t == 31 || t == 32 {
		return b
	}
	if r.Intn(3) == 0 {
		b[len(b)-1] |= 0x80
	}
	if t == 56 {
		return genBody(r, b, t)
	}
	b = putComp(b, genComp(r))
	b = putComp(b, genComp(r))
	return genBody(r, b, t)
}

func genLog(r *rand.Rand) []byte {
	var b []byte
	for n := r.Intn(12); n >= 0; n-- {
		b = genRecord(r, b)
	}
	switch r.Intn(4) {
	case 0:
		b = append(b, make([]byte, r.Intn(5))...)
	case 1:
		b = append(b, 31)
	}
	if r.Intn(10) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	return b
}

// genAt: a position in data with a record of type t.
func genAt(r *rand.Rand, t int) ([]byte, *uint64) {
	b := genBytes(r, r.Intn(20))
	p := uint64(len(b))
	b = genBody(r, b, t)
	b = rnd(r, b, r.Intn(12))
	if r.Intn(6) == 0 && len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	if r.Intn(8) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	return b, &p
}

func init() {
	govcGens["Parse.parseRedoBlockData"] = func(r *rand.Rand) []interface{} {
		return []interface{}{&Parse{}, genLog(r)}
	}
	typed := map[string][]int{"mlogNBytes": {1, 2, 4, 8}, "mlogFileOp": {33, 34, 35, 47, 54, 55}, "mlogRecInsert": {9, 38},
		"mlogRecClustDeleteMark": {10, 39}, "mlogRecUpdateInPlace": {13, 41}, "mlogRecDelete": {14, 42},
		"mlogListDelete": {15, 16, 43, 44}, "mlogListEndCopyCreated": {17, 45}, "mlogPageReorganize": {18, 46, 53}}
	for n, ts := range typed {
		ts := ts
		govcGens["Parse."+n] = func(r *rand.Rand) []interface{} {
			t := ts[r.Intn(len(ts))]
			b, p := genAt(r, t)
			return []interface{}{&Parse{}, b, p, uint64(t)}
		}
	}
	one := map[string]int{"mlogRecSecDeleteMark": 11, "mlogUndoInit": 22, "mlogUndoHdrReuse": 24, "mlogUndoHdrCreate": 25,
		"mlogWriteString": 30, "mlogCompRecSecDeleteMark": 40, "mlogZipWriteNodePtr": 48, "mlogZipWriteHeader": 50,
		"mlogZipPageCompress": 51, "mlogZipPageCompressNoData": 52, "mlogUndoInsert": 20}
	for n, t := range one {
		t := t
		govcGens["Parse."+n] = func(r *rand.Rand) []interface{} {
			b, p := genAt(r, t)
			return []interface{}{&Parse{}, b, p}
		}
	}
}
