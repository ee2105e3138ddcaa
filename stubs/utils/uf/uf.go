// Package uf is a stand-in for github.com/indigo-web/utils/uf (not available offline).
package uf

import "unsafe"

// B2S reinterprets a byte slice as a string, without copying.
func B2S(b []byte) string {
	return *(*string)(unsafe.Pointer(&b))
}

// S2B reinterprets a string as a byte slice, without copying.
func S2B(s string) (b []byte) {
	if len(s) == 0 {
		return nil
	}

	p := (*struct {
		data unsafe.Pointer
		len  int
	})(unsafe.Pointer(&s))
	r := (*struct {
		data     unsafe.Pointer
		len, cap int
	})(unsafe.Pointer(&b))
	r.data, r.len, r.cap = p.data, p.len, p.len

	return b
}
