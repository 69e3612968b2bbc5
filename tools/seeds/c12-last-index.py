id='c12-last-index'; property='C12'; pkg='recovery/utils'
edits=[('recovery/utils/utils.go','''		default:
			continue
		}
		colBuffer.WriteString(colValue[last:i])''','''		default:
			continue
		}
		if i-last > 0 || last == 0 {
			colBuffer.WriteString(colValue[last:i])
		} else if i > 1 && colValue[i-1] == colValue[i] && c == '\\'' {
			// the quote before this one already quotes it
			last = i + 1
			continue
		}''')]
needs='a text value holding two quotes in a row, not at its start'
breaks='The second of two adjacent quotes is dropped from the escaped text, so the statement restores a different value.'
demo=r"""package utils

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"", "plain", "it's", "''", "a''b", "x'''", "\n\r\x00\x1a", `"q"z"`, `\\\`} {
		want := strings.NewReplacer("\x00", `\0`, "\n", `\n`, "\r", `\r`, `\`, `\\`, "'", `\'`, "\"", "\\\"", "\x1a", `\Z`).Replace(s)
		if got := EscapeValue(s); got != want {
			t.Errorf("demo: %q escaped as %q, want %q", s, got, want)
		}
	}
}
"""
