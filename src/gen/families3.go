package gen

import (
	"fmt"
	"math/bits"

	"vmon/ref"
	"vmon/wl"
)

// oddH makes chaining values with words that code might treat specially.
func (b *B) oddH() (h [5]uint32) {
	for i := range h {
		h[i] = pick(b, b.R.Uint32(), b.R.Uint32(), 0, 0xffffffff, 0x80000000, 1, ref.IV[i])
	}
	switch b.n(6) {
	case 0:
		h = [5]uint32{}
	case 1:
		h = [5]uint32{0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff}
	case 2:
		h[b.n(5)] = h[b.n(5)]
	}
	return
}

// Structured: blocks that meet a vector's conditions (or all but one of them) and are
// text, mostly zeros, mostly repeated words, ...; first, after other blocks, and from
// odd chaining values; with the vector's real difference (never a collision) or an
// injected one (always).
func (b *B) Structured(count int, inject bool) {
	for i := 0; i < count; i++ {
		dv := b.n(32)
		c := b.begin("structured", "")
		if inject {
			if b.chance(1, 2) {
				b.injectAll(c, b.dm0)
			} else {
				c.op(opInject(dv, b.dm0))
			}
		}
		for k := 0; k < 2; k++ {
			pre := b.cleanBlocks(b.n(3))
			h := ref.IV
			for o := 0; o < len(pre); o += 64 {
				h, _ = ref.Block(h, pre[o:o+64], b.std)
			}
			load := k == wl.KGo && b.chance(1, 2)
			if load {
				h = b.oddH()
				pre = nil
			}
			skip := -1
			if b.chance(1, 4) {
				skip = b.n(len(ref.DVs[dv].Conds))
			}
			blk, name := StructBlock(b.R, dv, skip, h)
			if blk == nil {
				continue
			}
			c.c.Note = fmt.Sprintf("DV #%d, %q, inject=%v", dv, name, inject)
			m := append(pre, blk...)
			if b.chance(1, 3) {
				b2, _ := StructBlock(b.R, b.n(32), -1, h)
				m = append(m, b2...)
			}
			m = append(m, wl.Rand(b.R.Uint64(), b.n(3)*b.n(40))...)
			d := ref3{b.lit(m), 0, len(m)}
			c.op(opNew(k, k))
			if load {
				n := 64 * uint64(b.n(1000))
				c.op(opUnm(k, ref3{b.lit(ref.State(pick(b, ref.MagicClean, ref.MagicClean, ref.MagicCollided), h, nil, n)), 0, 98}))
			} else {
				c.op(opSumFn(k, d))
			}
			for _, w := range b.split(k, d, true) {
				c.op(w)
			}
			c.op(opCRS(k, b.pre()))
			if k == wl.KGo {
				c.op(opMarshal(k))
			}
		}
		c.end()
	}
}

// OneOfMany: a block satisfies the conditions of several vectors, and only one of them
// (each in turn) leads to a collision.
func (b *B) OneOfMany(count int) {
	for i := 0; i < count; i++ {
		blk := ManyBlock(b.R)
		if b.chance(1, 2) {
			p := b.R.Perm(32)
			s := &system{}
			if !s.addDV(&ref.DVs[p[0]], -1) {
				continue
			}
			if t := s.clone(); t.addDV(&ref.DVs[p[1]], -1) {
				s = t
			}
			blk = s.sample(b.R)
		}
		w := ref.Expand(blk)
		mask := ref.Mask(&w)
		m := append(b.cleanBlocks(b.n(3)), blk...)
		d := ref3{b.lit(m), 0, len(m)}
		for dv := 0; dv < 32; dv++ {
			if mask>>uint(ref.DVs[dv].Bit)&1 == 0 {
				continue
			}
			c := b.begin("oneofmany", fmt.Sprintf("DV #%d of %d", dv, bits.OnesCount32(mask)))
			c.op(opInject(dv, b.dm0))
			for k := 0; k < 2; k++ {
				c.op(opSumFn(k, d)).op(opNew(k, k)).op(opWrite(k, d)).op(opCRS(k, 0))
			}
			c.end()
		}
	}
}

// Counters: the same call made more often than 16 bits can count, on one hash, and
// with as many hashes alive; some of them flagged.
func (b *B) Counters(kind, n int) {
	look := func(i int) bool { return i&(i-1) == 0 || (i+1)&i == 0 || i%9973 == 0 || i >= n-2 }
	blk := ref3{b.lit(PassBlock(b.R, b.n(32))), 0, 64}
	begin := func(s string) *cs {
		c := b.begin("counters", fmt.Sprintf("%d %s", n, s))
		b.injectAll(c, b.dm0)
		return c.op(opNew(0, kind))
	}
	obs := func(c *cs, s int) {
		c.op(opCRS(s, 0))
		if kind == wl.KGo {
			c.op(opMarshal(s))
		}
	}
	c := begin("writes of one byte")
	for i := 1; i <= n; i++ {
		c.op(opWrite(0, ref3{b.big, i, 1}))
		if look(i) {
			obs(c, 0)
		}
	}
	c.op(opWrite(0, ref3{blk.blob, 0, (64 - n%64) % 64})).op(opWrite(0, blk))
	obs(c, 0)
	c.end()
	c = begin("empty writes")
	c.op(opWrite(0, blk))
	for i := 1; i <= n; i++ {
		c.op(opWrite(0, ref3{b.big, i, 0}))
		if look(i) {
			obs(c, 0)
		}
	}
	c.op(opWrite(0, ref3{b.big, 0, 100}))
	obs(c, 0)
	c.end()
	c = begin("observations")
	c.op(opWrite(0, ref3{b.big, 5, 77}))
	for i := 1; i <= n; i++ {
		if i == n/2 {
			c.op(opReset(0)).op(opWrite(0, blk)).op(opWrite(0, ref3{b.big, 5, 7}))
		}
		if i%3 == 0 {
			c.op(opSum(0, 0))
		} else {
			c.op(opCRS(0, 0))
		}
	}
	c.op(opWrite(0, ref3{b.big, 0, 100}))
	obs(c, 0)
	c.end()
	c = begin("resets")
	for i := 1; i <= n; i++ {
		if i%3 == 0 {
			c.op(opWrite(0, blk))
		} else {
			c.op(opWrite(0, ref3{b.big, i, 1}))
		}
		c.op(opReset(0))
		if look(i) {
			obs(c, 0)
			c.op(opWrite(0, ref3{b.big, i, 70}))
			obs(c, 0)
			c.op(opReset(0))
		}
	}
	c.op(opWrite(0, blk))
	obs(c, 0)
	c.end()
	c = begin("sums of short messages")
	for i := 1; i <= n; i++ {
		if look(i) {
			c.op(opSumFn(kind, blk))
		}
		c.op(opSumFn(kind, ref3{b.big, i, i % 5}))
	}
	c.op(opSumFn(kind, blk)).op(opSumFn(kind, ref3{b.big, 0, 130}))
	c.end()
	if kind == wl.KGo {
		c = begin("states saved and loaded")
		st := ref.State(ref.MagicCollided, ref.IV, []byte{1, 2, 3}, 3)
		sb := ref3{b.lit(st), 0, len(st)}
		for i := 1; i <= n; i++ {
			if i&1 == 0 {
				c.op(opMarshal(0))
			} else {
				c.op(opUnm(0, sb)).op(opWrite(0, ref3{b.big, i, 1}))
			}
		}
		c.op(opWrite(0, blk))
		obs(c, 0)
		c.end()
	}
	live := n
	if kind == wl.KCgo {
		live = n / 16
	}
	c = b.begin("counters", fmt.Sprintf("%d hashes alive", live))
	b.injectAll(c, b.dm0)
	for i := 0; i < live; i++ {
		c.op(opNew(i, kind)).op(opWrite(i, ref3{b.big, i, 1 + i%7}))
	}
	for i := 0; i < live; i += 1 + b.n(30) {
		c.op(opWrite(i, blk))
	}
	for i := 0; i < live; i++ {
		if look(i) || i%7 == 0 {
			c.op(opWrite(i, ref3{b.big, i, 3}))
			obs(c, i)
		}
	}
	c.end()
}

// largeSize: a large length around a multiple of a power of two, up to 1<<max.
func (b *B) largeSize(max int) int {
	j := 13 + b.n(max-12)
	n := (1 + b.n(1<<uint(min(3, max-j)))) << uint(j)
	switch b.n(5) {
	case 0:
		n++
	case 1:
		n--
	case 2:
		n += 64 * (b.n(3) - 1)
	case 3:
		n += b.n(200)
	}
	return min(n, hugeN-200)
}

// Large: single writes of many blocks, also where what remains after completing a
// block is a round number, followed by everything else one does with a hash.
func (b *B) Large(count, max int, inject bool) {
	for i := 0; i < count; i++ {
		k := i % 2
		n := b.largeSize(max)
		c := b.begin("large", fmt.Sprintf("%d bytes inject=%v", n, inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		q := 0
		if b.chance(2, 3) {
			q = 1 + b.n(63)
		}
		c.op(opNew(0, k)).op(opNew(1, b.n(2)))
		if !inject && b.chance(1, 2) {
			a := b.n(4)
			c.op(opWrite(b.n(2), ref3{b.att[a], 0, b.attLen[a]}))
		}
		if q > 0 {
			c.op(opWrite(0, b.data(q)))
			n += 64 - q
		}
		d := ref3{b.huge, b.n(hugeN - n + 1), n}
		mode := func(o wl.Op) wl.Op {
			if n <= 1<<19 && b.chance(2, 3) {
				o.M = pick(b, wl.BufString, wl.BufCopy, wl.BufCopy)
				if o.M == wl.BufCopy {
					o.N = uint64(pick(b, 40, 511, 1000, 4095, 32767, 1<<20))
				}
			}
			return o
		}
		c.op(mode(opWrite(0, d))).op(opCRS(0, b.pre()))
		if k == wl.KGo {
			c.op(opMarshal(0))
		}
		c.op(opWrite(1, b.data(b.length(200)))).op(opWrite(0, b.data(b.length(200)))).op(opCRS(0, 0)).op(opSum(1, 0))
		c.op(mode(opWrite(1, ref3{b.huge, b.n(hugeN - n + 1), n}))).op(opCRS(1, 0)).op(opCRS(0, b.pre()))
		c.op(opSumFn(k, d))
		c.op(opReset(0)).op(opCRS(0, 0)).op(opWrite(0, ref3{d.blob, d.off, min(n, 70000)})).op(opCRS(0, 0))
		c.end()
	}
}

// ParallelLarge: lanes that hash large writes at the same time, some of them with
// an attack in front.
func (b *B) ParallelLarge(count, lanes, rounds, max int) {
	for i := 0; i < count; i++ {
		c := b.begin("parlarge", fmt.Sprintf("%d lanes", lanes))
		p := wl.Op{Code: wl.OpPar, N: uint64(rounds)}
		for l := 0; l < lanes; l++ {
			var ops []wl.Op
			k := pick(b, 0, 0, 1)
			ops = append(ops, opNew(16, k))
			for x := 0; x < 4; x++ {
				n := b.largeSize(max)
				d := ref3{b.huge, b.n(hugeN - n + 1), n}
				if b.chance(1, 3) {
					a := b.n(4)
					ops = append(ops, opWrite(16, ref3{b.att[a], 0, b.attLen[a]}))
				}
				o := opWrite(16, d)
				o.M = wl.BufShared
				ops = append(ops, o, opCRS(16, 0))
				if b.chance(1, 3) {
					o := opSumFn(k, d)
					o.M = wl.BufShared
					ops = append(ops, o)
				}
				if b.chance(1, 2) {
					ops = append(ops, opReset(16))
				}
			}
			p.Lanes = append(p.Lanes, ops)
		}
		c.op(p)
		c.end()
	}
}

// NearInit: restored states that share all but a little with a fresh hash, or with
// one another, and what Reset, Write and saving make of them.
func (b *B) NearInit(count int, inject bool) {
	init := [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}
	for i := 0; i < count; i++ {
		c := b.begin("nearinit", fmt.Sprintf("states close to the initial one, inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		c.op(opNew(0, wl.KGo))
		for j := 0; j < 3; j++ {
			h := init
			for x := 1 + b.n(2); x > 0 && !b.chance(1, 6); x-- {
				h[b.n(5)] = pick(b, 0, 1, ^uint32(0), uint32(b.R.Uint64()), init[b.n(5)])
			}
			n := pick(b, 0, 0, 0, 64, 1, 63, 128, 1<<32, 1<<32+5)
			st := ref.State(pick(b, ref.MagicClean, ref.MagicClean, ref.MagicCollided), h, wl.Rand(b.R.Uint64(), int(n%64)), uint64(n))
			c.op(opUnm(0, ref3{b.lit(st), 0, len(st)}))
			if b.chance(1, 3) {
				c.op(opCRS(0, b.pre()))
			}
			if b.chance(1, 3) {
				c.op(opMarshal(0))
			}
			if b.chance(1, 3) {
				c.op(opWrite(0, b.data(b.length(130))))
			}
			if b.chance(2, 3) {
				c.op(opReset(0)).op(opMarshal(0)).op(opCRS(0, 0))
				if b.chance(1, 2) {
					c.op(opWrite(0, b.data(b.length(130)))).op(opCRS(0, 0))
				}
			} else {
				c.op(opWrite(0, b.data(b.length(130)))).op(opCRS(0, 0)).op(opMarshal(0))
			}
		}
		c.end()
	}
}

// Ladder: single writes just below, at and just above every power of two from
// 1<<lo to 1<<hi bytes, an attack in front of or within some of them.
func (b *B) Ladder(kinds []int, lo, hi uint, per int) {
	dv := -1
	var z [80]uint32
	for i := 0; i < 32 && dv < 0; i++ {
		if ref.Mask(&z)>>uint(i)&1 == 0 {
			dv = i
		}
	}
	for j := lo; j <= hi; j++ {
		for _, k := range kinds {
			for i := 0; i < per; i++ {
				n := uint64(1) << j
				switch b.n(6) {
				case 0:
				case 1, 2, 3:
					n += uint64(1 + b.n(63))
				case 4:
					n -= uint64(1 + b.n(63))
				case 5:
					n += 64 * uint64(1+b.n(3))
				}
				c := b.begin("ladder", fmt.Sprintf("one write of %d bytes", n))
				o := wl.Op{Code: wl.OpBigZero, S: 0, N: n}
				c.op(opNew(0, k))
				switch v := b.n(3); {
				case i%2 == 0 && j <= 24 || v == 0: // an attack, then nothing of note
					a := b.n(4)
					o.Blob, o.Len = b.att[a], b.attLen[a]
				case v == 1 && dv >= 0:
					c.op(opInject(dv, b.dm0))
					head := b.n(4) * b.n(64)
					c.op(opWrite(0, ref3{b.lit(b.cleanBlocks(4)), 0, head}))
					pos := b.R.Uint64N(n-300) + 130
					pos -= (pos + uint64(head)) % 64
					o.Blob, o.Len, o.M = b.lit(PassBlock(b.R, dv)), 64, int(pos)
				default:
					c.op(opWrite(0, b.data(b.n(64))))
				}
				c.op(o).op(opCRS(0, b.pre()))
				c.op(opWrite(0, b.data(b.length(200)))).op(opCRS(0, 0)).op(opReset(0)).op(opCRS(0, 0))
				c.end()
			}
		}
	}
}
