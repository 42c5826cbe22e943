package sym

import (
	"gocv/smt"
)

// Chunk of a ghost bit string.
type Chunk struct {
	Kind byte // 'b' bits, 't' codec token, 'q' byte sequence
	W    int
	V    *smt.Term // bits: width W
	Tok  string
	Args []Value
	Len  *smt.Term // tokens: length in bits (64-bit term)
	Seq  Seq
}

// Stream is the state of a ghost bit string (*cv.S), writer (*cv.W) or reader
// (*cv.R).
type Stream struct {
	role   byte // 's','w','r'
	chunks []Chunk
	start  *smt.Term // absolute position of the first bit
	pos    *smt.Term // absolute position of the end (s) or of the reader
	target ObjID     // writer: its stream
	mode   byte      // 0 reliable, 'f' may fail, 'a' arbitrary content (reader)
	failed bool
	short  bool // reader: Read may return fewer bytes
	ops    int
}

func (r *Run) bitsChunk(v *smt.Term, w int) Chunk {
	if v.Sort.W != w {
		v = r.c.Resize(v, w, false)
	}
	return Chunk{Kind: 'b', W: w, V: v}
}

func (r *Run) chunkLen(k Chunk) *smt.Term {
	switch k.Kind {
	case 'b':
		return r.c.Const(uint64(k.W), 64)
	case 't':
		return k.Len
	}
	return r.c.Mul(k.Seq.Len, r.c.Const(8, 64))
}

func (r *Run) emit(st *Stream, k Chunk) {
	if k.Kind == 'b' && k.W == 0 {
		return
	}
	st.chunks = append(st.chunks, k)
	st.pos = r.c.Add(st.pos, r.chunkLen(k))
}

// emitBits appends the n low bits of a 64-bit term.
func (r *Run) emitBits(st *Stream, v *smt.Term, n int) {
	if n == 0 {
		return
	}
	for n > 64 {
		k := n - 64
		if k > 64 {
			k = 64
		}
		r.emit(st, r.bitsChunk(r.c.Const(0, k), k))
		n -= k
	}
	r.emit(st, r.bitsChunk(r.c.Extract(v, n-1, 0), n))
}

// varKinds: token name -> (max bytes, signed, bits of the first byte payload)
type varKind struct {
	max    int
	signed bool
}

var varKinds = map[string]varKind{
	"varint16": {2, true}, "varint32": {4, true}, "varint64": {8, true}, "varint": {9, true},
	"varuint16": {2, false}, "varuint32": {4, false}, "varuint64": {8, false}, "varuint": {9, false}, "varsize": {5, false},
}

// expandTok turns a variable-length integer token into its bits, following the
// zserio encoding; forks over the byte count. The expansion is itself checked
// against the specification functions by a contract lemma.
func (r *Run) expandTok(s *State, k Chunk) []Chunk {
	c := r.c
	vk, ok := varKinds[k.Tok]
	if !ok {
		limit("cannot expand token %s", k.Tok)
	}
	nb := int(r.concretise(s, k.Len, 12, "token length") / 8)
	v := k.Args[0].(*smt.Term) // 64 bits
	mag := v
	if vk.signed {
		neg := c.Slt(v, c.Const(0, 64))
		mag = c.Ite(neg, c.Neg(v), v)
		if k.Tok == "varint" && nb == 1 {
			if r.decide(s, c.Eq(v, c.Const(1<<63, 64))) {
				return []Chunk{r.bitsChunk(c.Const(0x80, 8), 8)}
			}
		}
	}
	// payload layout: total bits = groups
	var out []Chunk
	full := nb == vk.max
	total := 0 // payload bits
	for i := 0; i < nb; i++ {
		total += r.payload(vk, i, nb, full)
	}
	rem := total
	for i := 0; i < nb; i++ {
		p := r.payload(vk, i, nb, full)
		if vk.signed && i == 0 {
			neg := c.Slt(v, c.Const(0, 64))
			out = append(out, r.bitsChunk(c.Ite(neg, c.Const(1, 1), c.Const(0, 1)), 1))
		}
		if !(i == vk.max-1) {
			cont := uint64(1)
			if i == nb-1 {
				cont = 0
			}
			out = append(out, r.bitsChunk(c.Const(cont, 1), 1))
		}
		out = append(out, r.bitsChunk(c.Extract(mag, rem-1, rem-p), p))
		rem -= p
	}
	return out
}

func (r *Run) payload(vk varKind, i, nb int, full bool) int {
	p := 8
	if i != vk.max-1 {
		p--
	}
	if vk.signed && i == 0 {
		p--
	}
	return p
}

// takeBits consumes n bits (n<=64) from a chunk list; ok=false at the end.
func (r *Run) takeBits(s *State, st *Stream, n int) (*smt.Term, bool) {
	c := r.c
	if n == 0 {
		return nil, true
	}
	var acc *smt.Term
	got := 0
	for got < n {
		if len(st.chunks) == 0 {
			return nil, false
		}
		k := st.chunks[0]
		switch k.Kind {
		case 't':
			st.chunks = append(r.expandTok(s, k), st.chunks[1:]...)
			continue
		case 'q':
			if r.decide(s, c.Eq(k.Seq.Len, c.Const(0, 64))) {
				st.chunks = st.chunks[1:]
				continue
			}
			st.chunks = r.splitSeq(st.chunks)
			continue
		}
		take := n - got
		if take > k.W {
			take = k.W
		}
		piece := c.Extract(k.V, k.W-1, k.W-take)
		if take == k.W {
			st.chunks = st.chunks[1:]
		} else {
			nk := append([]Chunk(nil), st.chunks...)
			nk[0] = r.bitsChunk(c.Extract(k.V, k.W-take-1, 0), k.W-take)
			st.chunks = nk
		}
		if acc == nil {
			acc = piece
		} else {
			acc = c.Concat(acc, piece)
		}
		got += take
	}
	st.pos = c.Add(st.pos, c.Const(uint64(n), 64))
	return acc, true
}

// splitSeq splits the first byte off a leading (non-empty) sequence chunk.
func (r *Run) splitSeq(ch []Chunk) []Chunk {
	c := r.c
	k := ch[0]
	b := Chunk{Kind: 'b', W: 8, V: c.Select(k.Seq.Arr, k.Seq.Off)}
	one := c.Const(1, 64)
	rest := Chunk{Kind: 'q', Seq: Seq{Arr: k.Seq.Arr, Off: c.Add(k.Seq.Off, one), Len: c.Sub(k.Seq.Len, one)}}
	return append([]Chunk{b, rest}, ch[1:]...)
}

// chunksEq: equality of two bit strings (may fork).
func (r *Run) chunksEq(s *State, a, b []Chunk) *smt.Term {
	c := r.c
	a, b = append([]Chunk(nil), a...), append([]Chunk(nil), b...)
	res := c.T
	for {
		if res.IsFalse() {
			return res
		}
		if len(a) == 0 || len(b) == 0 {
			rest := append(append([]Chunk(nil), a...), b...)
			for _, k := range rest {
				res = c.And(res, c.Eq(r.chunkLen(k), c.Const(0, 64)))
			}
			return res
		}
		x, y := a[0], b[0]
		switch {
		case x.Kind == 'b' && y.Kind == 'b':
			n := x.W
			if y.W < n {
				n = y.W
			}
			res = c.And(res, c.Eq(c.Extract(x.V, x.W-1, x.W-n), c.Extract(y.V, y.W-1, y.W-n)))
			if x.W > n {
				a[0] = r.bitsChunk(c.Extract(x.V, x.W-n-1, 0), x.W-n)
			} else {
				a = a[1:]
			}
			if y.W > n {
				b[0] = r.bitsChunk(c.Extract(y.V, y.W-n-1, 0), y.W-n)
			} else {
				b = b[1:]
			}
		case x.Kind == 't' && y.Kind == 't' && x.Tok == y.Tok:
			for i := range x.Args {
				res = c.And(res, r.equal(s, x.Args[i], y.Args[i]))
			}
			a, b = a[1:], b[1:]
		case x.Kind == 't':
			a = append(r.expandTok(s, x), a[1:]...)
		case y.Kind == 't':
			b = append(r.expandTok(s, y), b[1:]...)
		case x.Kind == 'q' && y.Kind == 'q':
			if x.Seq == y.Seq {
				a, b = a[1:], b[1:]
				continue
			}
			if x.Seq.Arr == y.Seq.Arr && x.Seq.Off == y.Seq.Off {
				// same bytes, maybe different lengths: continue with the rest
				le := c.Eq(x.Seq.Len, y.Seq.Len)
				if r.decide(s, le) {
					a, b = a[1:], b[1:]
					continue
				}
				if r.decide(s, c.Ult(x.Seq.Len, y.Seq.Len)) {
					b = append([]Chunk{{Kind: 'q', Seq: Seq{y.Seq.Arr, c.Add(y.Seq.Off, x.Seq.Len), c.Sub(y.Seq.Len, x.Seq.Len)}}}, b[1:]...)
					a = a[1:]
				} else {
					a = append([]Chunk{{Kind: 'q', Seq: Seq{x.Seq.Arr, c.Add(x.Seq.Off, y.Seq.Len), c.Sub(x.Seq.Len, y.Seq.Len)}}}, a[1:]...)
					b = b[1:]
				}
				continue
			}
			if r.decide(s, c.Eq(x.Seq.Len, c.Const(0, 64))) {
				a = a[1:]
				continue
			}
			if r.decide(s, c.Eq(y.Seq.Len, c.Const(0, 64))) {
				b = b[1:]
				continue
			}
			if r.decide(s, c.Eq(x.Seq.Len, y.Seq.Len)) {
				res = c.And(res, r.seqSame(s, x.Seq, y.Seq))
				a, b = a[1:], b[1:]
				continue
			}
			if r.decide(s, c.Ult(x.Seq.Len, y.Seq.Len)) {
				y1 := Seq{y.Seq.Arr, y.Seq.Off, x.Seq.Len}
				res = c.And(res, r.seqSame(s, x.Seq, y1))
				b = append([]Chunk{{Kind: 'q', Seq: Seq{y.Seq.Arr, c.Add(y.Seq.Off, x.Seq.Len), c.Sub(y.Seq.Len, x.Seq.Len)}}}, b[1:]...)
				a = a[1:]
			} else {
				x1 := Seq{x.Seq.Arr, x.Seq.Off, y.Seq.Len}
				res = c.And(res, r.seqSame(s, x1, y.Seq))
				a = append([]Chunk{{Kind: 'q', Seq: Seq{x.Seq.Arr, c.Add(x.Seq.Off, y.Seq.Len), c.Sub(x.Seq.Len, y.Seq.Len)}}}, a[1:]...)
				b = b[1:]
			}
		case x.Kind == 'q':
			if r.decide(s, c.Eq(x.Seq.Len, c.Const(0, 64))) {
				a = a[1:]
			} else {
				a = r.splitSeq(a)
			}
		case y.Kind == 'q':
			if r.decide(s, c.Eq(y.Seq.Len, c.Const(0, 64))) {
				b = b[1:]
			} else {
				b = r.splitSeq(b)
			}
		}
	}
}

// alignPad returns the number of bits to the next multiple of b (concrete).
func (r *Run) alignPad(s *State, pos *smt.Term, b uint64) int {
	c := r.c
	if b == 0 {
		r.goPanic(s, "integer divide by zero")
	}
	m := c.Urem(pos, c.Const(b, 64))
	v := r.concretise(s, m, 260, "alignment")
	if v == 0 {
		return 0
	}
	return int(b - v)
}
