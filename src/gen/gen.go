// Package gen builds workloads. Everything is a function of (family, seed,
// size): no clock, no environment.
package gen

import (
	"encoding/binary"
	"hash/fnv"
	"math/rand/v2"

	"vmon/ref"
	"vmon/wl"
)

type B struct {
	W    *wl.Workload
	R    *rand.Rand
	seed uint64
	std  *ref.Table

	big    int    // blob: 1 MiB of pseudo random bytes
	huge   int    // blob: 6 MiB of pseudo random bytes
	zeros  int    // 64 KiB of zeros
	ones   int    // 64 KiB of 0xff
	text   int    // repetitive text
	pass   int    // blob of blocks that satisfy at least one DV's conditions
	npass  int    // number of blocks in it
	dm0    int    // blob: 80 zero words
	dmX    int    // blob: 80 random words
	att    [4]int // attack messages (prefix included)
	attLen [4]int
}

var AttackFiles = []string{"shattered-1.bin", "shattered-2.bin", "sha-mbles-1.bin", "sha-mbles-2.bin"}

const bigN, hugeN = 1 << 20, 6 << 20

func New(seed uint64, salt string, attacks [][]byte) *B {
	h := fnv.New64a()
	h.Write([]byte(salt))
	b := &B{W: &wl.Workload{}, seed: seed, R: rand.New(rand.NewPCG(seed, h.Sum64())), std: ref.StdTable()}
	for i := range ref.DVs {
		d := &ref.DVs[i]
		b.W.DVs = append(b.W.DVs, [3]int{d.Type, d.K, d.B})
		b.W.Probes = append(b.W.Probes, PassBlock(b.R, i))
	}
	b.big = b.prng(bigN)
	b.huge = b.prng(hugeN)
	b.zeros = b.lit(make([]byte, 65536))
	o := make([]byte, 65536)
	for i := range o {
		o[i] = 0xff
	}
	b.ones = b.lit(o)
	t := make([]byte, 65536)
	for i := range t {
		t[i] = "The quick brown fox jumps over the lazy dog. "[i%45]
	}
	b.text = b.lit(t)
	var ps []byte
	for i := 0; i < 32; i++ {
		for j := 0; j < 4; j++ {
			ps = append(ps, PassBlock(b.R, i)...)
		}
	}
	for j := 0; j < 32; j++ {
		ps = append(ps, ManyBlock(b.R)...)
	}
	b.npass = len(ps) / 64
	b.pass = b.lit(ps)
	b.dm0 = b.lit(make([]byte, 320))
	b.dmX = b.lit(wl.Rand(b.R.Uint64(), 320))
	for i, a := range attacks {
		b.att[i] = b.lit(a)
		b.attLen[i] = len(a)
	}
	return b
}

func (b *B) lit(p []byte) int {
	b.W.Blobs = append(b.W.Blobs, wl.Blob{Lit: append([]byte{}, p...)})
	return len(b.W.Blobs) - 1
}
func (b *B) prng(n int) int {
	b.W.Blobs = append(b.W.Blobs, wl.Blob{Seed: b.R.Uint64(), N: n})
	return len(b.W.Blobs) - 1
}
func (b *B) bytes(blob int) []byte { return b.W.Blobs[blob].Bytes() }

func (b *B) n(k int) int {
	if k <= 0 {
		return 0
	}
	return b.R.IntN(k)
}
func (b *B) chance(num, den int) bool { return b.R.IntN(den) < num }
func pick[T any](b *B, xs ...T) T     { return xs[b.R.IntN(len(xs))] }

// cs accumulates one case.
type cs struct {
	b *B
	c wl.Case
}

func (b *B) begin(family, note string) *cs {
	return &cs{b: b, c: wl.Case{Family: family, Note: note}}
}
func (c *cs) end() { c.b.W.Cases = append(c.b.W.Cases, c.c) }
func (c *cs) op(o wl.Op) *cs {
	c.flag(&o)
	c.c.Ops = append(c.c.Ops, o)
	return c
}
func (c *cs) flag(o *wl.Op) {
	switch o.Code {
	case wl.OpNew, wl.OpSumFn, wl.OpMask, wl.OpConsts:
		if o.K == wl.KCgo {
			c.c.Flags |= wl.FlagCgo
		}
	case wl.OpMarshal, wl.OpUnmarshal:
		c.c.Flags |= wl.FlagMarshal
	case wl.OpInject:
		c.c.Flags |= wl.FlagInject
	case wl.OpBigZero:
		c.c.Flags |= wl.FlagBig | wl.FlagSlow
	case wl.OpPar:
		for _, l := range o.Lanes {
			for i := range l {
				c.flag(&l[i])
			}
		}
	}
}

type ref3 struct{ blob, off, n int }

func opNew(s, k int) wl.Op  { return wl.Op{Code: wl.OpNew, S: s, K: k} }
func opReset(s int) wl.Op   { return wl.Op{Code: wl.OpReset, S: s} }
func opMarshal(s int) wl.Op { return wl.Op{Code: wl.OpMarshal, S: s} }
func opSum(s, m int) wl.Op  { return wl.Op{Code: wl.OpSum, S: s, M: m} }
func opCRS(s, m int) wl.Op  { return wl.Op{Code: wl.OpCRS, S: s, M: m} }
func opSize(s int) wl.Op    { return wl.Op{Code: wl.OpSize, S: s} }
func opWrite(s int, d ref3) wl.Op {
	return wl.Op{Code: wl.OpWrite, S: s, Blob: d.blob, Off: d.off, Len: d.n}
}
func opSumFn(k int, d ref3) wl.Op {
	return wl.Op{Code: wl.OpSumFn, K: k, Blob: d.blob, Off: d.off, Len: d.n}
}
func opUnm(s int, d ref3) wl.Op {
	return wl.Op{Code: wl.OpUnmarshal, S: s, Blob: d.blob, Off: d.off, Len: d.n}
}
func opInject(dv, blob int) wl.Op {
	return wl.Op{Code: wl.OpInject, K: 3, N: uint64(dv), Blob: blob, Len: 320}
}
func opMask(k, blob int) wl.Op { return wl.Op{Code: wl.OpMask, K: k, Blob: blob, Len: 320} }

func (b *B) injectAll(c *cs, blob int) {
	for i := 0; i < 32; i++ {
		c.op(opInject(i, blob))
	}
}

// length picks interesting lengths.
func (b *B) length(max int) int {
	var n int
	switch b.n(12) {
	case 0:
		n = b.n(4)
	case 1, 2, 3:
		n = b.n(200)
	case 4, 5:
		n = 64*(1+b.n(6)) + b.n(5) - 2
	case 6:
		n = pick(b, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129)
	case 7, 8:
		n = b.n(2000)
	case 9:
		n = 64 * b.n(40)
	case 10:
		n = b.n(9000)
	default:
		n = b.n(max + 1)
	}
	if n > max {
		n = b.n(max + 1)
	}
	return n
}

// data picks a piece of data of length n.
func (b *B) data(n int) ref3 {
	switch b.n(16) {
	case 0:
		if n <= 65536 {
			return ref3{b.zeros, 0, n}
		}
	case 1:
		if n <= 65536 {
			return ref3{b.ones, 0, n}
		}
	case 2:
		if n <= 65536-45 {
			return ref3{b.text, b.n(45), n}
		}
	case 3, 4, 5:
		if n <= b.npass*64-64 {
			o := 64 * b.n((b.npass*64-n)/64+1)
			return ref3{b.pass, o, n}
		}
	}
	if n > bigN {
		return ref3{b.huge, b.n(hugeN - n + 1), n}
	}
	return ref3{b.big, b.n(bigN - n + 1), n}
}

func (b *B) bufMode(o *wl.Op) {
	o.M = pick(b, wl.BufPlain, wl.BufPlain, wl.BufGuardEnd, wl.BufGuardBeg, wl.BufReadOnly, wl.BufUnalign, wl.BufSpareCap, wl.BufStack, wl.BufString, wl.BufCopy)
	o.N = uint64(b.n(64))
	if o.M == wl.BufStack {
		o.N = uint64(b.n(40))
		if b.chance(1, 8) {
			o.N = uint64(200 + b.n(200))
		}
	}
	if o.M == wl.BufCopy && b.chance(1, 2) {
		o.N = uint64(b.n(5000))
	}
	if o.Len == 0 && b.chance(1, 2) {
		o.M = wl.BufNil
	}
}

// split cuts d into write operations on slot s.
func (b *B) split(s int, d ref3, modes bool) []wl.Op {
	var ops []wl.Op
	style := b.n(7)
	for d.n > 0 {
		k := d.n
		switch style {
		case 0: // all at once
		case 1:
			k = 1 + b.n(8)
		case 2:
			k = 64
		case 3:
			k = 1 + b.n(130)
		case 4:
			k = pick(b, 1, 63, 64, 65, 128, 127, 129, 191, 192, 320)
		case 5:
			k = 1 + b.n(1500)
		case 6:
			k = b.length(5000)
		}
		if style == 1 && d.n > 3000 {
			k = 1 + b.n(200)
		}
		if k > d.n {
			k = d.n
		}
		o := opWrite(s, ref3{d.blob, d.off, k})
		if modes {
			b.bufMode(&o)
		}
		ops = append(ops, o)
		d.off += k
		d.n -= k
	}
	return ops
}

func be(ws []uint32) []byte {
	var o []byte
	for _, w := range ws {
		o = binary.BigEndian.AppendUint32(o, w)
	}
	return o
}

func (b *B) kind() int { return pick(b, wl.KGo, wl.KGo, wl.KGo, wl.KCgo) }
func (b *B) pre() int {
	if b.chance(1, 3) {
		return wl.PreGen + b.n(pick(b, 4, 40, 128)) + 128*b.n(pick(b, 3, 30, 100, 300, 4500))
	}
	if b.chance(1, 12) {
		return wl.PreLong + b.n(pick(b, 300, 1100, 1100, 5000))
	}
	return b.n(wl.NumPre)
}

// state makes a valid serialised state.
func (b *B) state(flag bool) []byte {
	var h [5]uint32
	for i := range h {
		h[i] = b.R.Uint32()
	}
	if b.chance(1, 3) {
		h = ref.IV
	} else if b.chance(1, 4) {
		h = b.oddH()
	}
	n := b.stateLen()
	m := ref.MagicClean
	if flag {
		m = ref.MagicCollided
	}
	buf := wl.Rand(b.R.Uint64(), 64)[:n%64]
	return ref.State(m, h, buf, n)
}

func (b *B) stateLen() uint64 {
	var n uint64
	switch b.n(10) {
	case 8: // nothing written yet, as far as the length tells
		n = 0
	case 9:
		n = 64 * uint64(b.n(5))
	case 0:
		n = uint64(b.n(200))
	case 1:
		n = 1<<29 - 100 + uint64(b.n(200))
	case 2:
		n = 1<<32 - 100 + uint64(b.n(200))
	case 3:
		n = 1<<31 - 100 + uint64(b.n(200))
	case 4:
		n = 1<<uint(30+b.n(31)) - 70 + uint64(b.n(140))
	case 5:
		n = 1<<61 - 1 - uint64(b.n(20000))
	case 6:
		n = b.R.Uint64() >> 3
	default:
		n = b.R.Uint64() >> uint(3+b.n(40))
	}
	if n >= 1<<61 {
		n = 1<<61 - 1
	}
	return n
}
