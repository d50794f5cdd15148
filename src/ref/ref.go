// Package ref is the executable reference model: SHA-1 from FIPS 180-4, the
// disturbance vectors derived from the attack theory, the pinned unavoidable
// bit conditions, and the recompression test of counter-cryptanalysis. It
// shares no code with the repository under test.
package ref

import (
	"crypto/sha1"
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"math/bits"
)

//go:embed ubc.json
var ubcJSON []byte

type Cond struct{ I, BI, J, BJ, P int }

type DV struct {
	Type, K, B int
	Bit        int
	TestT      int
	Conds      []Cond
	D          map[int]uint32
	Dm         [80]uint32
	// Window[t] reports whether the two expanded messages are expected to have
	// the same working state before step t: a recompression from any such t
	// decides the same thing.
	Window [81]bool
}

// DVs in reference order (by mask bit).
var DVs []DV

func init() {
	var raw []struct {
		Bit, Type, K, B int
		Conds           [][5]int
	}
	if err := json.Unmarshal(ubcJSON, &raw); err != nil {
		panic(err)
	}
	DVs = make([]DV, len(raw))
	for _, r := range raw {
		d := DV{Type: r.Type, K: r.K, B: r.B, Bit: r.Bit}
		for _, c := range r.Conds {
			d.Conds = append(d.Conds, Cond{c[0], c[1], c[2], c[3], c[4]})
		}
		d.derive()
		DVs[r.Bit] = d
	}
	buildWordConds()
}

func (d *DV) derive() {
	D := map[int]uint32{}
	one := uint32(1) << uint(d.B)
	for i := d.K; i < d.K+16; i++ {
		D[i] = 0
	}
	D[d.K+15] = one
	if d.Type == 2 {
		D[d.K+1] = bits.RotateLeft32(one, 31)
		D[d.K+3] = bits.RotateLeft32(one, 31)
	}
	for i := d.K + 16; i < 80; i++ {
		D[i] = bits.RotateLeft32(D[i-3]^D[i-8]^D[i-14]^D[i-16], 1)
	}
	for i := d.K - 1; i >= -5; i-- {
		D[i] = bits.RotateLeft32(D[i+16], 31) ^ D[i+13] ^ D[i+8] ^ D[i+2]
	}
	for t := 0; t < 80; t++ {
		d.Dm[t] = D[t] ^ bits.RotateLeft32(D[t-1], 5) ^ D[t-2] ^
			bits.RotateLeft32(D[t-3]^D[t-4]^D[t-5], 30)
	}
	for t := 0; t <= 80; t++ {
		z := true
		for j := 1; j <= 5; j++ {
			z = z && D[t-j] == 0
		}
		d.Window[t] = z
	}
	d.D = D
	// The published table stores states 58 and 65 only.
	if d.Window[58] {
		d.TestT = 58
	} else {
		d.TestT = 65
	}
	if !d.Window[d.TestT] {
		panic("reference: no usable recompression step")
	}
}

type wc struct {
	i, bi, j, bj uint8
	p            uint32
	mask         uint32 // DVs that need it
}

var wordConds []wc

func buildWordConds() {
	idx := map[Cond]int{}
	for b := range DVs {
		for _, c := range DVs[b].Conds {
			k, ok := idx[c]
			if !ok {
				k = len(wordConds)
				idx[c] = k
				wordConds = append(wordConds, wc{uint8(c.I), uint8(c.BI), uint8(c.J), uint8(c.BJ), uint32(c.P), 0})
			}
			wordConds[k].mask |= 1 << uint(b)
		}
	}
}

// Mask evaluates the unavoidable bit conditions of every DV.
func Mask(w *[80]uint32) uint32 {
	m := uint32(0xffffffff)
	for k := range wordConds {
		c := &wordConds[k]
		if (w[c.i]>>c.bi^w[c.j]>>c.bj)&1 != c.p {
			m &^= c.mask
		}
	}
	return m
}

// Table is the disturbance-vector table a hash consults.
type Table struct {
	Dm    [32][80]uint32
	TestT [32]int
	Zero  bool
}

func StdTable() *Table {
	t := &Table{}
	for i := range DVs {
		t.Dm[i] = DVs[i].Dm
		t.TestT[i] = DVs[i].TestT
	}
	return t
}

func f(t int, b, c, d uint32) uint32 {
	switch {
	case t < 20:
		return (b & c) ^ (^b & d)
	case t < 40:
		return b ^ c ^ d
	case t < 60:
		return (b & c) ^ (b & d) ^ (c & d)
	}
	return b ^ c ^ d
}

var kk = [4]uint32{0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6}

func Expand(block []byte) (w [80]uint32) {
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(block[4*i:])
	}
	for i := 16; i < 80; i++ {
		w[i] = bits.RotateLeft32(w[i-3]^w[i-8]^w[i-14]^w[i-16], 1)
	}
	return
}

func step(s [5]uint32, t int, w uint32) [5]uint32 {
	tmp := bits.RotateLeft32(s[0], 5) + f(t, s[1], s[2], s[3]) + s[4] + kk[t/20] + w
	return [5]uint32{tmp, s[0], bits.RotateLeft32(s[1], 30), s[2], s[3]}
}

func unstep(s [5]uint32, t int, w uint32) [5]uint32 {
	a, b, c, d := s[1], bits.RotateLeft32(s[2], 2), s[3], s[4]
	e := s[0] - bits.RotateLeft32(a, 5) - f(t, b, c, d) - kk[t/20] - w
	return [5]uint32{a, b, c, d, e}
}

// Compress is one application of the SHA-1 compression function; states[t] is
// the working state before step t.
func Compress(h [5]uint32, w *[80]uint32, states *[81][5]uint32) [5]uint32 {
	s := h
	for t := 0; t < 80; t++ {
		if states != nil {
			states[t] = s
		}
		s = step(s, t, w[t])
	}
	if states != nil {
		states[80] = s
	}
	for i := range h {
		h[i] += s[i]
	}
	return h
}

// Recompress returns the chaining output of the sibling message w^dm whose
// working state before step T equals the given one.
func Recompress(T int, st [5]uint32, w, dm *[80]uint32) [5]uint32 {
	in, out := st, st
	for t := T - 1; t >= 0; t-- {
		in = unstep(in, t, w[t]^dm[t])
	}
	for t := T; t < 80; t++ {
		out = step(out, t, w[t]^dm[t])
	}
	for i := range in {
		in[i] += out[i]
	}
	return in
}

type BlockInfo struct {
	Mask     uint32
	Detected bool
	DV       int // first detecting DV, or -1
}

var fastBuf = sha1.BlockSize

// Block processes one message block: the result chaining value, and whether
// it was detected as a near-collision block.
func Block(h [5]uint32, block []byte, tbl *Table) ([5]uint32, BlockInfo) {
	w := Expand(block)
	bi := BlockInfo{Mask: Mask(&w), DV: -1}
	if bi.Mask == 0 {
		return Compress(h, &w, nil), bi
	}
	var states [81][5]uint32
	out := Compress(h, &w, &states)
	for i := 0; i < 32; i++ {
		if bi.Mask>>uint(i)&1 == 0 {
			continue
		}
		T := tbl.TestT[i]
		if Recompress(T, states[T], &w, &tbl.Dm[i]) == out {
			bi.Detected = true
			bi.DV = i
			out = Compress(out, &w, nil)
			out = Compress(out, &w, nil)
			break
		}
	}
	return out, bi
}

var IV = [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}

// Digest is the reference hash.
type Digest struct {
	H   [5]uint32
	X   [64]byte
	Len uint64
	Col bool
	Tbl *Table

	Blocks, Passing, Detected uint64

	Opt *Opts // the C library's switches, nil for the defaults
}

// Opts are the switches of the C library.
type Opts struct{ NoSafe, NoUBC, NoDetect, Reduced bool }

// BlockOpt is Block under the given switches.
func BlockOpt(h [5]uint32, block []byte, tbl *Table, o *Opts) ([5]uint32, BlockInfo) {
	w := Expand(block)
	bi := BlockInfo{Mask: Mask(&w), DV: -1}
	var states [81][5]uint32
	out := Compress(h, &w, &states)
	if o.NoDetect {
		return out, bi
	}
	mask := bi.Mask
	if o.NoUBC {
		mask = 1<<32 - 1
	}
	for i := 0; i < 32; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		T := tbl.TestT[i]
		in := states[T]
		for t := T - 1; t >= 0; t-- {
			in = unstep(in, t, w[t]^tbl.Dm[i][t])
		}
		if Recompress(T, states[T], &w, &tbl.Dm[i]) == out || o.Reduced && in == h {
			bi.Detected, bi.DV = true, i
			if !o.NoSafe {
				out = Compress(out, &w, nil)
				out = Compress(out, &w, nil)
			}
			break
		}
	}
	return out, bi
}

func New(t *Table) *Digest { d := &Digest{Tbl: t}; d.Reset(); return d }

func (d *Digest) Reset() { d.H = IV; d.Len = 0; d.Col = false }

func (d *Digest) block(b []byte) {
	var bi BlockInfo
	if d.Opt != nil {
		d.H, bi = BlockOpt(d.H, b, d.Tbl, d.Opt)
	} else {
		d.H, bi = Block(d.H, b, d.Tbl)
	}
	d.Blocks++
	if bi.Mask != 0 {
		d.Passing++
	}
	if bi.Detected {
		d.Detected++
		d.Col = true
	}
}

func (d *Digest) Write(p []byte) {
	nx := int(d.Len % 64)
	d.Len += uint64(len(p))
	if nx > 0 {
		n := copy(d.X[nx:], p)
		p = p[n:]
		if nx+n < 64 {
			return
		}
		d.block(d.X[:])
	}
	for len(p) >= 64 {
		d.block(p[:64])
		p = p[64:]
	}
	copy(d.X[:], p)
}

func (d *Digest) Sum() ([]byte, bool) {
	c := *d
	n := d.Len % 64
	pad := []byte{0x80}
	for (n+uint64(len(pad)))%64 != 56 {
		pad = append(pad, 0)
	}
	pad = binary.BigEndian.AppendUint64(pad, d.Len<<3)
	c.Write(pad)
	d.Blocks, d.Passing, d.Detected = c.Blocks, c.Passing, c.Detected
	out := make([]byte, 0, 20)
	for _, v := range c.H {
		out = binary.BigEndian.AppendUint32(out, v)
	}
	return out, c.Col
}

const (
	MagicClean    = "shacd\x01"
	MagicCollided = "shacd\x02"
)

func (d *Digest) Marshal() []byte {
	m := MagicClean
	if d.Col {
		m = MagicCollided
	}
	return State(m, d.H, d.X[:d.Len%64], d.Len)
}

func State(magic string, h [5]uint32, buf []byte, n uint64) []byte {
	b := []byte(magic)
	for _, v := range h {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	var x [64]byte
	copy(x[:], buf)
	b = append(b, x[:]...)
	return binary.BigEndian.AppendUint64(b, n)
}

// Unmarshal reports whether the state was accepted.
func (d *Digest) Unmarshal(b []byte) bool {
	if len(b) != 98 || (string(b[:6]) != MagicClean && string(b[:6]) != MagicCollided) {
		return false
	}
	d.Col = string(b[:6]) == MagicCollided
	for i := range d.H {
		d.H[i] = binary.BigEndian.Uint32(b[6+4*i:])
	}
	copy(d.X[:], b[26:90])
	d.Len = binary.BigEndian.Uint64(b[90:])
	return true
}

// WriteZeros hashes n zero bytes using the standard library for the bulk. The
// caller guarantees that an all-zero block is not detected under d.Tbl.
func (d *Digest) WriteZeros(n uint64) {
	h := sha1.New()
	type um interface{ UnmarshalBinary([]byte) error }
	type ma interface{ MarshalBinary() ([]byte, error) }
	st := []byte("sha\x01")
	cur := State("", d.H, d.X[:d.Len%64], d.Len)
	if err := h.(um).UnmarshalBinary(append(st, cur...)); err != nil {
		panic(err)
	}
	z := make([]byte, 1<<20)
	for n > 0 {
		k := uint64(len(z))
		if n < k {
			k = n
		}
		h.Write(z[:k])
		n -= k
	}
	out, _ := h.(ma).MarshalBinary()
	for i := range d.H {
		d.H[i] = binary.BigEndian.Uint32(out[4+4*i:])
	}
	copy(d.X[:], out[24:88])
	d.Len = binary.BigEndian.Uint64(out[88:])
}
