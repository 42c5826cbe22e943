package cv

// Specification of the zserio variable-length integers, written from the
// encoding guide: groups of seven payload bits, most significant first, each
// byte starting with a continuation bit; a signed type spends the first bit of
// the first byte on the sign (sign and magnitude); the last byte of the longest
// form has eight payload bits and no continuation bit; the shortest form that
// fits is used; the minimum of varint is the otherwise unused "negative zero".

// VarMax is the maximum number of bytes of a kind, VarSigned its signedness.
func VarMax(kind string) int {
	switch kind {
	case "varint16", "varuint16":
		return 2
	case "varint32", "varuint32":
		return 4
	case "varint64", "varuint64":
		return 8
	case "varint", "varuint":
		return 9
	}
	return 5 // varsize
}

func VarSigned(kind string) bool {
	switch kind {
	case "varint16", "varint32", "varint64", "varint":
		return true
	}
	return false
}

// VarPayload is the number of payload bits of the n-byte form.
func VarPayload(kind string, n int) int {
	p := 7 * n
	if n == VarMax(kind) {
		p++
	}
	if VarSigned(kind) {
		p--
	}
	return p
}

// VarMag is the magnitude that is stored for a value.
func VarMag(kind string, v uint64) uint64 {
	if VarSigned(kind) {
		return Ite(int64(v) < 0, -v, v)
	}
	return v
}

func fits(m uint64, bits int) bool {
	if bits >= 64 {
		return true
	}
	return m < uint64(1)<<uint(bits)
}

// VarReadable: a reader can only return values that the payload of the longest
// form can hold (used where the input is arbitrary).
func VarReadable(kind string, v uint64) bool {
	p := VarPayload(kind, VarMax(kind))
	if p >= 63 {
		return true
	}
	if VarSigned(kind) {
		return Implies(int64(v) >= 0, v < 1<<uint(p)) && Implies(int64(v) < 0, -v < 1<<uint(p))
	}
	return v < 1<<uint(p)
}

// VarInRange: the documented range of the kind.
func VarInRange(kind string, v uint64) bool {
	if kind == "varsize" {
		return v < 1<<31
	}
	if kind == "varint" || kind == "varuint" {
		return true
	}
	return fits(VarMag(kind, v), VarPayload(kind, VarMax(kind)))
}

// VarLen is the number of bytes of the encoding of v.
func VarLen(kind string, v uint64) int {
	m := VarMag(kind, v)
	n := VarMax(kind)
	for k := n - 1; k >= 1; k-- {
		n = Ite(fits(m, VarPayload(kind, k)), k, n)
	}
	if kind == "varint" {
		n = Ite(v == 1<<63, 1, n)
	}
	return n
}

// SpecVar appends the encoding of v.
func SpecVar(s *S, kind string, v uint64) {
	n := VarLen(kind, v)
	switch n {
	case 1:
		n = 1
	case 2:
		n = 2
	case 3:
		n = 3
	case 4:
		n = 4
	case 5:
		n = 5
	case 6:
		n = 6
	case 7:
		n = 7
	case 8:
		n = 8
	case 9:
		n = 9
	}
	if kind == "varint" && v == 1<<63 {
		s.Bits(0x80, 8)
		return
	}
	m := VarMag(kind, v)
	rem := VarPayload(kind, n)
	for i := 0; i < n; i++ {
		p := 8
		if VarSigned(kind) && i == 0 {
			s.Bits(Ite[uint64](int64(v) < 0, 1, 0), 1)
			p--
		}
		if i < VarMax(kind)-1 {
			s.Bits(Ite[uint64](i < n-1, 1, 0), 1)
			p--
		}
		rem -= p
		s.Bits(m>>uint(rem), p)
	}
}
