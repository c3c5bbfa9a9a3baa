// Package strcomp: ASCII case-insensitive comparison, as in indigo-web/utils.
package strcomp

// EqualFold reports whether two strings are equal under ASCII case folding.
func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}
	return true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c | 0x20
	}
	return c
}
