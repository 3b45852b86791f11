// Package strcomp compares strings ignoring the ASCII case.
package strcomp

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c | 0x20
	}

	return c
}

func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}

	for i := 0; i < len(a); i++ {
		if a[i] != b[i] && lower(a[i]) != lower(b[i]) {
			return false
		}
	}

	return true
}
