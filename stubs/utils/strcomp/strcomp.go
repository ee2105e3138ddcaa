// Package strcomp is a stand-in for github.com/indigo-web/utils/strcomp (not available offline).
package strcomp

// EqualFold compares two strings ASCII-case-insensitively.
func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}

	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}

	return true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c | 0x20
	}

	return c
}
