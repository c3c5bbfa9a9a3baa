// Package uf: zero-copy conversions, as in indigo-web/utils.
package uf

import "unsafe"

// B2S reinterprets a byte slice as a string without copying.
func B2S(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

// S2B reinterprets a string as a byte slice without copying.
func S2B(s string) []byte {
	if len(s) == 0 {
		return nil
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&s))
	return unsafe.Slice((*byte)(p), len(s))
}
