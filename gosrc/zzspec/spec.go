// Package zzspec states the wire format of the saratoga frames independently of
// the code under verification: header bits, field widths, byte order.
package zzspec

// Field - n bits of the header, msb counted from the most significant bit
func Field(h uint32, msb, n uint) uint32 { return (h << msb) >> (32 - n) }

// Frame types
const (
	Beacon   = 0
	Request  = 1
	Metadata = 2
	Data     = 3
	Status   = 4
)

// Version and the other fields of the 32 bit header
func Version(h uint32) uint32    { return Field(h, 0, 3) }
func Frametype(h uint32) uint32  { return Field(h, 3, 5) }
func Descriptor(h uint32) uint32 { return Field(h, 8, 2) }
func Transfer(h uint32) uint32   { return Field(h, 10, 2) }
func HasTs(h uint32) bool        { return Field(h, 12, 1) == 1 }
func Freespace(h uint32) bool    { return Field(h, 17, 1) == 1 }
func Freespaced(h uint32) uint32 { return Field(h, 18, 2) }
func Csumlen(h uint32) uint32    { return Field(h, 24, 4) }
func Errcode(h uint32) uint32    { return Field(h, 24, 8) }

// With - the header with a field replaced
func With(h uint32, msb, n uint, v uint32) uint32 {
	m := (uint32(1)<<n - 1) << (32 - n - msb)
	return h&^m | v<<(32-n-msb)&m
}

// Width - bytes of a descriptor sized number, 0: 128 bits, not supported
func Width(desc uint32) int {
	switch desc {
	case 0:
		return 2
	case 1:
		return 4
	case 2:
		return 8
	}
	return 0
}

// Fits - v is representable in the descriptor
func Fits(desc uint32, v uint64) bool {
	switch desc {
	case 0:
		return v <= 0xffff
	case 1:
		return v <= 0xffffffff
	case 2:
		return true
	}
	return false
}

// U16 .. - big endian numbers
func U16(b []byte, at int) uint64 { return uint64(b[at])<<8 | uint64(b[at+1]) }
func U32(b []byte, at int) uint64 { return U16(b, at)<<16 | U16(b, at+2) }
func U64(b []byte, at int) uint64 { return U32(b, at)<<32 | U32(b, at+4) }

// Num - the descriptor sized number at b[at:]
func Num(b []byte, at int, desc uint32) uint64 {
	switch desc {
	case 0:
		return U16(b, at)
	case 1:
		return U32(b, at)
	}
	return U64(b, at)
}
