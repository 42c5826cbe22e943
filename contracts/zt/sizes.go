package zt

import (
	"github.com/woven-planet/go-zserio/internal/zzv/cv"
	"github.com/woven-planet/go-zserio/ztype"
)

func signedKind(max int) string {
	switch max {
	case 2:
		return "varint16"
	case 4:
		return "varint32"
	case 8:
		return "varint64"
	}
	return "varint"
}

func unsignedKind(max int) string {
	switch max {
	case 2:
		return "varuint16"
	case 4:
		return "varuint32"
	case 8:
		return "varuint64"
	}
	return "varuint"
}

// SignedBitSize is the number of bits of the signed encoding limited to
// maxBytes bytes, for every 64-bit value.
//
//gocv:harness prop=C04,C02 provides=size param=max:2,4,8,9
func HSignedBitSize() {
	max := cv.Param("max")
	v := cv.Any[int64]("v")
	n, err := ztype.SignedBitSize(v, max)
	kind := signedKind(max)
	if cv.VarInRange(kind, uint64(v)) {
		cv.Ensures(err == nil, "succeeds in range")
		cv.Ensures(n == 8*cv.VarLen(kind, uint64(v)), "size of the encoding")
	} else {
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrOutOfBounds), "refuses a value out of range")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

// specUnsignedSize: bytes of an unsigned value in at most max bytes; 0 if none.
func specUnsignedSize(v uint64, max int) int {
	n := 0
	if max == 9 || v < uint64(1)<<uint(7*max+1) {
		n = max
	}
	for k := max - 1; k >= 1; k-- {
		n = cv.Ite(v < uint64(1)<<uint(7*k), k, n)
	}
	return n
}

// UnsignedBitSize is the number of bits of the unsigned encoding limited to
// maxBytes bytes, for every 64-bit value.
//
//gocv:harness prop=C04,C02 provides=size param=max:2,4,5,8,9
func HUnsignedBitSize() {
	max := cv.Param("max")
	v := cv.Any[uint64]("v")
	n, err := ztype.UnsignedBitSize(v, max)
	if k := specUnsignedSize(v, max); k > 0 {
		cv.Ensures(err == nil, "succeeds in range")
		cv.Ensures(n == 8*k, "size of the encoding")
	} else {
		cv.Ensures(err != nil && cv.IsErr(err, ztype.ErrOutOfBounds), "refuses a value out of range")
	}
	cv.Ensures(cv.Unchanged(), "modifies no package state")
}

//gocv:replaces ztype.SignedBitSize set=size
func cSignedBitSize(v int64, maxBytes int) (int, error) {
	switch maxBytes {
	case 2, 4, 8, 9:
	default:
		return ztype.SignedBitSize(v, maxBytes)
	}
	kind := signedKind(maxBytes)
	if !cv.VarInRange(kind, uint64(v)) {
		return 0, ztype.ErrOutOfBounds
	}
	return 8 * cv.VarLen(kind, uint64(v)), nil
}

//gocv:replaces ztype.UnsignedBitSize set=size
func cUnsignedBitSize(v uint64, maxBytes int) (int, error) {
	switch maxBytes {
	case 2, 4, 5, 8, 9:
	default:
		return ztype.UnsignedBitSize(v, maxBytes)
	}
	if maxBytes < 9 && v >= uint64(1)<<uint(7*maxBytes+1) {
		return 0, ztype.ErrOutOfBounds
	}
	return 8 * specUnsignedSize(v, maxBytes), nil
}
