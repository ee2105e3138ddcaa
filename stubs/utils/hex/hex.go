// Package hex is a stand-in for github.com/indigo-web/utils/hex (not available offline).
package hex

// Un returns the value of a hexadecimal digit.
func Un(char byte) byte {
	switch {
	case char >= '0' && char <= '9':
		return char - '0'
	case char >= 'a' && char <= 'f':
		return char - 'a' + 10
	case char >= 'A' && char <= 'F':
		return char - 'A' + 10
	}

	return 0
}
