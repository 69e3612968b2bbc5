package utils

// Specification functions: MySQL string literals.

// SpecEscByte is one byte of text inside a quoted literal.
func SpecEscByte(c byte) string {
	switch c {
	case 0:
		return "\\0"
	case '\n':
		return "\\n"
	case '\r':
		return "\\r"
	case 26:
		return "\\Z"
	case '\\':
		return "\\\\"
	case '\'':
		return "\\'"
	case '"':
		return "\\\""
	}
	return string([]byte{c})
}

// SpecEsc is the first n bytes of s inside a quoted literal.
func SpecEsc(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return SpecEsc(s, n-1) + SpecEscByte(s[n-1])
}

// The server's lexer reading a quoted literal, one byte at a time. Modes: 0 in the literal,
// 1 after a backslash, 2 the literal has ended.
func SpecLexMode(mode int, c byte) int {
	if mode == 0 {
		if c == '\\' {
			return 1
		}
		if c == '\'' {
			return 2
		}
		return 0
	}
	if mode == 1 {
		return 0
	}
	return 2
}

// SpecLexOut is the text that byte c adds in the given mode.
func SpecLexOut(mode int, c byte) string {
	if mode == 0 {
		if c == '\\' || c == '\'' {
			return ""
		}
		return string([]byte{c})
	}
	if mode == 1 {
		switch c {
		case '0':
			return "\x00"
		case 'n':
			return "\n"
		case 'r':
			return "\r"
		case 't':
			return "\t"
		case 'b':
			return "\b"
		case 'Z':
			return "\x1a"
		case '%':
			return "\\%"
		case '_':
			return "\\_"
		}
		return string([]byte{c})
	}
	return ""
}

// LemmaUnescape reads the escaped form of s with the server's lexer: the literal never ends early,
// it ends in mode 0 (so the closing quote ends it), and what was read is s.
func LemmaUnescape(s string) (string, int) {
	out := ""
	mode := 0
	for i := 0; i < len(s); i++ {
		e := SpecEscByte(s[i])
		out += SpecLexOut(mode, e[0])
		mode = SpecLexMode(mode, e[0])
		if len(e) > 1 {
			out += SpecLexOut(mode, e[1])
			mode = SpecLexMode(mode, e[1])
		}
	}
	return out, mode
}
