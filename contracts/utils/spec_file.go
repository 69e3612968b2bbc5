package utils

import "os"

// SpecFile is the content of the file at a path. Files do not change during a run.
func SpecFile(name string) string {
	b, err := os.ReadFile(name)
	if err != nil {
		return ""
	}
	return string(b)
}

// SpecFileMissing: the file cannot be opened.
func SpecFileMissing(name string) bool {
	f, err := os.Open(name)
	if err != nil {
		return true
	}
	f.Close()
	return false
}

// SpecFileAt: f is the file of that name, with pos bytes read.
func SpecFileAt(f *os.File, name string, pos int) bool {
	n, err := f.Seek(0, 1)
	return err == nil && f.Name() == name && int(n) == pos
}

// SpecSameFile: f and g are open on the same content.
func SpecSameFile(f, g *os.File) bool { return f.Name() == g.Name() }

// SpecFileLen is the length of the file f is open on.
func SpecFileLen(f *os.File) int {
	st, err := f.Stat()
	if err != nil {
		return 0
	}
	return int(st.Size())
}

// SpecFilePos is the number of bytes read from f.
func SpecFilePos(f *os.File) int {
	n, _ := f.Seek(0, 1)
	return int(n)
}

// SpecFileByte is byte i of the file f is open on.
func SpecFileByte(f *os.File, i int) byte {
	var b [1]byte
	f.ReadAt(b[:], int64(i))
	return b[0]
}
