package gen

import (
	"encoding/binary"
	"math/bits"
	"math/rand/v2"

	"vmon/ref"
)

// Linear algebra over GF(2): message blocks whose expansion satisfies chosen
// bit conditions.

type vec [8]uint64

func (v *vec) xor(o *vec) {
	for i := range v {
		v[i] ^= o[i]
	}
}
func (v *vec) bit(i int) uint64 { return v[i>>6] >> uint(i&63) & 1 }
func (v *vec) low() int {
	for i := range v {
		if v[i] != 0 {
			return i*64 + bits.TrailingZeros64(v[i])
		}
	}
	return -1
}

// wform[t][b]: bit b of W[t] as a linear form in the 512 message bits (word i,
// bit b is variable 32*i+b).
var wform [80][32]vec

func init() {
	for t := 0; t < 80; t++ {
		for b := 0; b < 32; b++ {
			if t < 16 {
				v := t*32 + b
				wform[t][b][v>>6] = 1 << uint(v&63)
				continue
			}
			s := (b + 31) % 32 // rotate left by one
			f := wform[t-3][s]
			f.xor(&wform[t-8][s])
			f.xor(&wform[t-14][s])
			f.xor(&wform[t-16][s])
			wform[t][b] = f
		}
	}
}

type row struct {
	v   vec
	rhs uint64
	p   int
}

type system struct{ rows []row }

func (s *system) clone() *system { return &system{append([]row(nil), s.rows...)} }

// add reports whether the equation is consistent with the system.
func (s *system) add(v vec, rhs uint64) bool {
	for i := range s.rows {
		if v.bit(s.rows[i].p) == 1 {
			v.xor(&s.rows[i].v)
			rhs ^= s.rows[i].rhs
		}
	}
	p := v.low()
	if p < 0 {
		return rhs == 0
	}
	s.rows = append(s.rows, row{v, rhs, p})
	return true
}

func condForm(c ref.Cond) vec {
	v := wform[c.I][c.BI]
	v.xor(&wform[c.J][c.BJ])
	return v
}

func (s *system) addCond(c ref.Cond, flip bool) bool {
	r := uint64(c.P)
	if flip {
		r ^= 1
	}
	return s.add(condForm(c), r)
}

func (s *system) addDV(d *ref.DV, flip int) bool {
	for i, c := range d.Conds {
		if !s.addCond(c, i == flip) {
			return false
		}
	}
	return true
}

// fix pins message byte i.
func (s *system) fix(i int, val byte) bool {
	word, sh := i/4, uint(24-8*(i%4))
	for b := uint(0); b < 8; b++ {
		v := word*32 + int(sh+b)
		var f vec
		f[v>>6] = 1 << uint(v&63)
		if !s.add(f, uint64(val>>b&1)) {
			return false
		}
	}
	return true
}

func (s *system) sample(r *rand.Rand) []byte {
	var x vec
	for i := range x {
		x[i] = r.Uint64()
	}
	for i := len(s.rows) - 1; i >= 0; i-- {
		rw := &s.rows[i]
		t := rw.rhs
		for j := range x {
			t ^= uint64(bits.OnesCount64(x[j]&rw.v[j])) & 1
		}
		x[rw.p>>6] ^= t << uint(rw.p&63)
	}
	out := make([]byte, 64)
	for i := 0; i < 16; i++ {
		binary.BigEndian.PutUint32(out[4*i:], uint32(x[i/2]>>uint(32*(i%2))))
	}
	return out
}

// PassBlock returns a block satisfying all conditions of the given DV.
func PassBlock(r *rand.Rand, dv int) []byte {
	var s system
	if !s.addDV(&ref.DVs[dv], -1) {
		panic("inconsistent conditions")
	}
	return s.sample(r)
}

// NearBlock satisfies every condition of dv except number c.
func NearBlock(r *rand.Rand, dv, c int) []byte {
	var s system
	if !s.addDV(&ref.DVs[dv], c) {
		return nil
	}
	return s.sample(r)
}

// ManyBlock satisfies as many DVs as a random greedy choice allows.
func ManyBlock(r *rand.Rand) []byte {
	s := &system{}
	for _, i := range r.Perm(32) {
		t := s.clone()
		if t.addDV(&ref.DVs[i], -1) {
			s = t
		}
	}
	return s.sample(r)
}

// PadTail returns n (<=55) bytes such that the final padded block of a message
// of total length total (total%64==n) satisfies dv's conditions, or nil.
func PadTail(r *rand.Rand, dv int, total uint64) []byte {
	n := int(total % 64)
	if n > 55 {
		return nil
	}
	s := &system{}
	for i := n; i < 64; i++ {
		var v byte
		if i == n {
			v = 0x80
		}
		if i >= 56 {
			v = byte(total << 3 >> uint(8*(63-i)))
		}
		if !s.fix(i, v) {
			return nil
		}
	}
	if !s.addDV(&ref.DVs[dv], -1) {
		return nil
	}
	return s.sample(r)[:n]
}

// FreeW returns 80 unconstrained words satisfying dv's conditions (except
// number skip, if >= 0).
func FreeW(r *rand.Rand, dv, skip int) (w [80]uint32) {
	for i := range w {
		w[i] = r.Uint32()
	}
	cs := ref.DVs[dv].Conds
	for it := 0; it < 40; it++ {
		ok := true
		for k, c := range cs {
			p := uint32(c.P)
			if k == skip {
				p ^= 1
			}
			if (w[c.I]>>uint(c.BI)^w[c.J]>>uint(c.BJ))&1 != p {
				ok = false
				if r.IntN(2) == 0 {
					w[c.I] ^= 1 << uint(c.BI)
				} else {
					w[c.J] ^= 1 << uint(c.BJ)
				}
			}
		}
		if ok {
			break
		}
	}
	return
}

// StructBlock returns a block that satisfies dv's conditions (all but number skip,
// if skip >= 0) and is otherwise as regular as they allow: text, mostly zeros, equal
// words, a file header, words equal to the chaining value h, and the like.
func StructBlock(r *rand.Rand, dv, skip int, h [5]uint32) ([]byte, string) {
	s := &system{}
	if dv >= 0 && !s.addDV(&ref.DVs[dv], skip) {
		return nil, ""
	}
	bit := func(i int) (f vec) { f[i>>6] = 1 << uint(i&63); return }
	fixBit := func(i int, v uint64) { s.add(bit(i), v) } // an inconsistent equation is dropped
	fixWord := func(t int, v uint32) {
		for _, b := range r.Perm(32) {
			s.add(wform[t][b], uint64(v>>uint(b)&1))
		}
	}
	eqWord := func(t, u int) {
		for _, b := range r.Perm(32) {
			f := wform[t][b]
			f.xor(&wform[u][b])
			s.add(f, 0)
		}
	}
	name := structNames[r.IntN(len(structNames))]
	switch name {
	case "text":
		for i := 7; i < 512; i += 8 {
			fixBit(i, 0)
		}
	case "printable":
		for i := 0; i < 512; i += 8 {
			fixBit(i+7, 0)
			fixBit(i+6, 1)
			fixBit(i+5, 1)
		}
	case "high":
		for i := 7; i < 512; i += 8 {
			fixBit(i, 1)
		}
	case "zeros", "ones":
		v := byte(0)
		if name == "ones" {
			v = 0xff
		}
		for _, i := range r.Perm(64) {
			for _, b := range r.Perm(8) {
				fixBit((i/4)*32+24-8*(i%4)+b, uint64(v>>uint(b)&1))
			}
		}
	case "zerowords":
		for _, t := range r.Perm(16)[:1+r.IntN(8)] {
			fixWord(t, 0)
		}
	case "firstzero":
		for t := 0; t < 1+r.IntN(12); t++ {
			fixWord(t, 0)
		}
	case "lastzero":
		for t := 15; t > 3+r.IntN(12); t-- {
			fixWord(t, 0)
		}
	case "lastbyte":
		for b := 0; b < 8; b++ {
			fixBit(15*32+b, uint64(r.IntN(2))&uint64(r.IntN(2)))
		}
		fixWord(15, 0)
	case "expandedzero":
		for k := 0; k < 1+r.IntN(3); k++ {
			fixWord(16+r.IntN(64), pickU(r, 0, 0xffffffff, 0x80000000))
		}
	case "specialword":
		fixWord(r.IntN(16), pickU(r, 0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6, 0x67452301))
		fixWord(r.IntN(16), pickU(r, 0, 0xffffffff, 0x80000000, 0x7fffffff, 1))
	case "halves":
		for t := 0; t < 8; t++ {
			eqWord(t, t+8)
		}
	case "equalwords":
		for t := 1; t < 16; t++ {
			eqWord(t, t-1)
		}
	case "twoequal":
		p := r.Perm(16)
		eqWord(p[0], p[1])
	case "chaining":
		for t := 0; t < 5; t++ {
			fixWord(t, h[t])
		}
	case "iv":
		o := r.IntN(12)
		for t := 0; t < 5; t++ {
			fixWord(o+t, ref.IV[t])
		}
	case "padding": // looks like padding: 0x80, zeros, a length
		n := r.IntN(56)
		for i := n; i < 64; i++ {
			v := byte(0)
			if i == n {
				v = 0x80
			}
			if i >= 62 {
				v = byte(r.Uint32())
			}
			c := s.clone()
			if c.fix(i, v) {
				s = c
			}
		}
	default: // a header
		for i := 0; i < len(name); i++ {
			c := s.clone()
			if c.fix(i, name[i]) {
				s = c
			}
		}
	}
	return s.sample(r), name
}

var structNames = []string{"text", "printable", "high", "zeros", "zeros", "ones", "zerowords", "zerowords", "firstzero", "lastzero", "lastbyte", "expandedzero", "specialword", "specialword",
	"halves", "equalwords", "twoequal", "chaining", "iv", "padding", "padding",
	"%PDF-1.4\n%\xe2\xe3\xcf\xd3\n", "blob 1024\x00", "commit 256\x00tree ", "tree 108\x00100644 ", "PK\x03\x04", "\x7fELF\x02\x01\x01", "\xff\xd8\xff\xe0", "\x00\x00\x00\x00", "\xff\xff\xff\xff"}

func pickU(r *rand.Rand, xs ...uint32) uint32 { return xs[r.IntN(len(xs))] }
