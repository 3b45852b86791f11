package hex

// Is tells whether the char is a hexadecimal digit.
func Is(char byte) bool {
	return char >= '0' && char <= '9' || (char|0x20) >= 'a' && (char|0x20) <= 'f'
}

// Un returns the value of a hexadecimal digit.
func Un(char byte) byte {
	if char >= '0' && char <= '9' {
		return char - '0'
	}

	return (char | 0x20) - 'a' + 10
}
