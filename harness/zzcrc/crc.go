// Package zzcrc compares the checksum with the bitwise definition of CRC-32/MPEG-2.
package zzcrc

import (
	"github.com/moggle-mog/goav/container/ts"
	. "github.com/moggle-mog/goav/zzv"
)

// bitwise is the definition: polynomial 0x04c11db7, all ones at the start, most significant bit first.
func bitwise(p []byte) uint32 {
	c := uint32(0xffffffff)
	for _, b := range p {
		c ^= uint32(b) << 24
		for i := 0; i < 8; i++ {
			c = c<<1 ^ -(c>>31)&0x04c11db7
		}
	}
	return c
}

func sum(n int) {
	p := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		p = append(p, AnyByte())
	}
	Check(ts.GenerateCrc32(p) == bitwise(p), "T07: the checksum is the CRC-32/MPEG-2 of the bytes")
}

func Len0() { sum(0) }
func Len1() { sum(1) }
func Len2() { sum(2) }
func Len3() { sum(3) }
func Len4() { sum(4) }
func Len5() { sum(5) }
func Len8() { sum(8) }
func Len12() { sum(12) }
func Len16() { sum(16) }
func Len17() { sum(17) }
func Len22() { sum(22) }
func Len40() { sum(40) }
func Len64() { sum(64) }
func Len100() { sum(100) }
func Len183() { sum(183) }

// Any: any input at all.
func Any() { ts.GenerateCrc32(AnyBytes()) }
