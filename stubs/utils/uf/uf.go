// Package uf holds unsafe conversions between strings and byte slices.
package uf

import "unsafe"

func B2S(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

func S2B(s string) (b []byte) {
	type slice struct {
		ptr      unsafe.Pointer
		len, cap int
	}
	type str struct {
		ptr unsafe.Pointer
		len int
	}

	h := (*str)(unsafe.Pointer(&s))
	*(*slice)(unsafe.Pointer(&b)) = slice{h.ptr, h.len, h.len}

	return b
}
