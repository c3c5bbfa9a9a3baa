// Package hex: single hexadecimal digit helpers, as in indigo-web/utils.
package hex

// Un returns the value of a hexadecimal digit (0 for a non-digit).
func Un(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10
	}
	return 0
}
