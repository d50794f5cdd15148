package gen

import (
	"bytes"
	"fmt"

	"vmon/ref"
	"vmon/wl"
)

// Lifecycle: a hash goes through several lives separated by Reset (or by New,
// or by restoring a state), each with or without a collision, each ending at an
// arbitrary buffer fill, observed before and after.
func (b *B) Lifecycle(count int, inject bool) {
	for i := 0; i < count; i++ {
		c := b.begin("lifecycle", fmt.Sprintf("inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		k := pick(b, wl.KGo, wl.KGo, wl.KCgo)
		c.op(opNew(0, k))
		lives := 2 + b.n(5)
		for l := 0; l < lives; l++ {
			if b.chance(1, 3) {
				c.op(opCRS(0, b.pre())) // fresh
			}
			switch b.n(5) {
			case 0: // clean
				m := b.cleanBlocks(1 + b.n(3))
				for _, w := range b.split(0, ref3{b.lit(m), 0, len(m)}, true) {
					c.op(w)
				}
			case 1: // real attack
				a := b.n(4)
				for _, w := range b.split(0, ref3{b.att[a], 0, b.attLen[a]}, true) {
					c.op(w)
				}
			case 2: // passing blocks
				n := 64 * (1 + b.n(5))
				for _, w := range b.split(0, ref3{b.pass, 64 * b.n(b.npass-6), n}, true) {
					c.op(w)
				}
			case 3: // empty life
			default:
				for _, w := range b.split(0, b.data(b.length(700)), true) {
					c.op(w)
				}
			}
			if b.chance(1, 2) {
				c.op(opCRS(0, b.pre()))
			}
			// clean data after a possible collision: the flag stays
			m := b.cleanBlocks(b.n(3))
			tail := append(m, wl.Rand(b.R.Uint64(), b.n(64))...)
			for _, w := range b.split(0, ref3{b.lit(tail), 0, len(tail)}, true) {
				c.op(w)
			}
			c.op(opCRS(0, b.pre()))
			if b.chance(1, 3) {
				c.op(opSum(0, b.pre()))
			}
			if k == wl.KGo && b.chance(1, 3) {
				c.op(opMarshal(0))
			}
			switch b.n(6) {
			case 0:
				c.op(opReset(0)).op(opReset(0))
			case 1:
				if k == wl.KGo {
					st := b.state(b.chance(1, 2))
					c.op(opUnm(0, ref3{b.lit(st), 0, 98})).op(opCRS(0, b.pre()))
					break
				}
				c.op(opReset(0))
			case 2:
				if k == wl.KGo { // a rejected state is not a new life
					st := b.badState()
					c.op(opUnm(0, ref3{b.lit(st), 0, len(st)})).op(opCRS(0, b.pre()))
				}
				c.op(opReset(0))
			default:
				c.op(opReset(0))
			}
		}
		c.op(opCRS(0, b.pre()))
		c.end()
	}
}

// SaveEvery: one message, its state saved and restored at every single cut.
func (b *B) SaveEvery(n int, inject bool, count int) {
	tbl := b.std
	if inject {
		tbl = b.zeroTable()
	}
	for i := 0; i < count; i++ {
		var msg []byte
		if inject {
			for len(msg) < n {
				if b.chance(1, 2) {
					msg = append(msg, PassBlock(b.R, b.n(32))...)
				} else {
					msg = append(msg, wl.Rand(b.R.Uint64(), 64)...)
				}
			}
			msg = msg[:n]
		} else {
			a := i % 4
			msg = append(append([]byte{}, b.bytes(b.att[a])...), wl.Rand(b.R.Uint64(), 70)...)
		}
		bl := b.lit(msg)
		md := ref.New(tbl)
		var states [][]byte
		for j := 0; j <= len(msg); j++ {
			states = append(states, md.Marshal())
			if j < len(msg) {
				md.Write(msg[j : j+1])
			}
		}
		for j := 0; j <= len(msg); j += 1 + b.n(3) {
			c := b.begin("saveevery", fmt.Sprintf("cut at %d of %d inject=%v", j, len(msg), inject))
			if inject {
				b.injectAll(c, b.dm0)
			}
			c.op(opNew(0, wl.KGo)).op(opNew(1, wl.KGo))
			c.op(opWrite(0, ref3{bl, 0, j})).op(opMarshal(0))
			if b.chance(1, 2) {
				c.op(opWrite(1, ref3{b.big, b.n(1000), b.n(200)}))
			}
			c.op(opUnm(1, ref3{b.lit(states[j]), 0, 98})).op(opMarshal(1)).op(opCRS(1, b.pre()))
			for s := 0; s < 2; s++ {
				c.op(opWrite(s, ref3{bl, j, len(msg) - j})).op(opCRS(s, b.pre()))
			}
			c.op(opMarshal(1))
			c.end()
		}
	}
}

// PosEvery: every position of a near-collision block in messages of exactly n
// blocks, written at once, for every alignment class of the write.
func (b *B) PosEvery(n int) {
	dv := b.n(32)
	clean := b.cleanBlocks(n)
	for pos := 0; pos < n; pos++ {
		m := append([]byte{}, clean...)
		copy(m[pos*64:], PassBlock(b.R, dv))
		d := ref3{b.lit(m), 0, len(m)}
		c := b.begin("posevery", fmt.Sprintf("block %d of %d, DV #%d", pos, n, dv))
		c.op(opInject(dv, b.dm0))
		for k := 0; k < 2; k++ {
			c.op(opSumFn(k, d)).op(opNew(k, k))
			q := 1 + b.n(63)
			c.op(opWrite(k, ref3{d.blob, 0, q})).op(opWrite(k, ref3{d.blob, q, d.n - q})).op(opCRS(k, 0)).op(opReset(k))
			for off := 0; off < d.n; off += 64 {
				c.op(opWrite(k, ref3{d.blob, off, 64}))
			}
			c.op(opCRS(k, 0))
		}
		c.end()
	}
}

// Twice: several near-collision blocks in one message: each is processed three
// times, and the flag does not count.
func (b *B) Twice(count int) {
	for i := 0; i < count; i++ {
		dv := b.n(32)
		n := 2 + b.n(12)
		m := b.cleanBlocks(n)
		for j := 0; j < 2+b.n(4); j++ {
			copy(m[64*b.n(n):], PassBlock(b.R, dv))
		}
		if b.chance(1, 3) { // the very same block twice in a row
			copy(m[64:128], m[:64])
		}
		m = append(m, wl.Rand(b.R.Uint64(), b.n(64))...)
		d := ref3{b.lit(m), 0, len(m)}
		c := b.begin("twice", fmt.Sprintf("DV #%d, %d blocks", dv, n))
		c.op(opInject(dv, b.dm0))
		for k := 0; k < 2; k++ {
			c.op(opNew(k, k))
			for _, w := range b.split(k, d, true) {
				c.op(w)
				if b.chance(1, 5) {
					c.op(opCRS(k, 0))
				}
			}
			c.op(opCRS(k, 0)).op(opSumFn(k, d))
		}
		c.end()
	}
}

// BigBulkInject: a near-collision block far into one large write.
func (b *B) BigBulkInject(count, blocks int) {
	for i := 0; i < count; i++ {
		n := blocks/2 + b.n(blocks/2)
		off := b.n(hugeN - n*64)
		c := b.begin("bigbulk", fmt.Sprintf("%d blocks in one write", n))
		b.injectAll(c, b.dm0)
		d := ref3{b.huge, off, n * 64}
		k := i % 2
		c.op(opNew(0, k)).op(opWrite(0, d)).op(opCRS(0, 0)).op(opSumFn(k, d))
		c.op(opReset(0)).op(opWrite(0, ref3{b.huge, off, 13})).op(opWrite(0, ref3{b.huge, off + 13, n*64 - 13})).op(opCRS(0, 0))
		c.end()
	}
}

// related: messages that are easily mistaken for one another: same length, same
// first or last block, one bit apart, a prefix of one another, or leading to the
// very same SHA-1 chaining value (the two halves of a collision).
func (b *B) related() (out []ref3) {
	for p := 0; p < 2; p++ {
		a := 2 * p
		n := min(b.attLen[a], b.attLen[a+1])
		tail := wl.Rand(b.R.Uint64(), pick(b, 0, 0, 1, 20, 64, 100))
		for j := a; j < a+2; j++ {
			m := append(append([]byte{}, b.bytes(b.att[j])[:n]...), tail...)
			out = append(out, ref3{b.lit(m), 0, len(m)})
		}
	}
	for g := 0; g < 2; g++ {
		n := 64 * b.n(6)
		if g == 1 {
			n = b.n(400)
		}
		m := wl.Rand(b.R.Uint64(), n)
		if n >= 64 && b.chance(1, 2) {
			copy(m[64*b.n(n/64):], PassBlock(b.R, b.n(32)))
		}
		add := func(x []byte) { out = append(out, ref3{b.lit(x), 0, len(x)}) }
		add(m)
		add(wl.Rand(b.R.Uint64(), n))
		if n > 0 {
			x := append([]byte{}, m...)
			x[b.n(n)] ^= 1 << uint(b.n(8))
			add(x)
			x = append([]byte{}, m...)
			x[n-1] ^= 0x80
			add(x)
			x = append([]byte{}, m...)
			x[0] ^= 1
			add(x)
			add(m[:n-1])
			add(m[:n/2])
			add(append(append([]byte{}, m...), 0))
			add(append(append([]byte{}, m...), 0x80))
			add(make([]byte, n))
		}
		if n >= 128 {
			x := append([]byte{}, m...)
			copy(x, m[64:128])
			copy(x[64:], m[:64])
			add(x)
		}
	}
	return
}

// Reuse: one hash hashes many related messages in turn, Reset in between, and so
// does the one-shot function; nothing of one message may show in the next.
func (b *B) Reuse(count int, inject bool) {
	for i := 0; i < count; i++ {
		c := b.begin("reuse", fmt.Sprintf("inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		msgs := b.related()
		k := b.n(2)
		c.op(opNew(0, k))
		if b.chance(1, 3) {
			c.op(opNew(1, 1-k))
		} else {
			c.op(opNew(1, k))
		}
		for j := 0; j < 30; j++ {
			x := b.n(len(msgs))
			if j > 0 && b.chance(1, 2) { // a neighbour of an earlier one
				x = (x + 1) % len(msgs)
			}
			d := msgs[x]
			s := b.n(2)
			switch b.n(6) {
			case 0:
				c.op(opSumFn(k, d))
				continue
			case 1:
				c.op(opWrite(s, d))
			default:
				for _, w := range b.split(s, d, true) {
					c.op(w)
				}
			}
			switch b.n(4) {
			case 0:
				c.op(opSum(s, b.pre()))
			case 1:
				c.op(opSum(s, b.pre())).op(opCRS(s, b.pre()))
			default:
				c.op(opCRS(s, b.pre()))
			}
			if b.chance(3, 4) {
				c.op(opReset(s))
			}
		}
		c.end()
	}
}

// ReuseLens: the same with messages of every length in turn.
func (b *B) ReuseLens(max int) {
	for k := 0; k < 2; k++ {
		for n := 0; n <= max; n += 8 {
			c := b.begin("reuse", fmt.Sprintf("lengths %d..%d", n, n+7))
			c.op(opNew(0, k))
			for l := n; l < n+8; l++ {
				for j := 0; j < 3; j++ {
					d := ref3{b.big, b.n(5000), l}
					c.op(opWrite(0, d)).op(opCRS(0, 0)).op(opReset(0)).op(opSumFn(k, d))
				}
			}
			c.end()
		}
	}
}

// WritePairs: every buffer fill from 0 to 63 followed by a write of every length
// up to max, the bytes all taken from blocks that get detected.
func (b *B) WritePairs(max int) {
	for k := 0; k < 2; k++ {
		for fill := 0; fill < 64; fill++ {
			c := b.begin("writepairs", fmt.Sprintf("fill %d", fill))
			b.injectAll(c, b.dm0)
			c.op(opNew(0, k))
			base := 64 * b.n(b.npass-max/64-4)
			for n := 0; n <= max; n++ {
				c.op(opWrite(0, ref3{b.pass, base, fill}))
				w := opWrite(0, ref3{b.pass, base + fill, n})
				if n%16 == fill%16 {
					b.bufMode(&w)
				}
				c.op(w).op(opCRS(0, 0)).op(opReset(0))
			}
			c.end()
		}
	}
}

// Prefixes: every length and spare capacity of the slice handed to Sum.
func (b *B) Prefixes() {
	for k := 0; k < 2; k++ {
		c := b.begin("prefixes", "")
		c.op(opNew(0, k)).op(opWrite(0, b.data(b.n(500))))
		for n := 0; n < 48; n++ {
			for spare := 0; spare < 48; spare += 1 + b.n(2) {
				m := wl.PreGen + n + 128*spare
				if b.chance(1, 2) {
					c.op(opSum(0, m))
				} else {
					c.op(opCRS(0, m))
				}
			}
		}
		c.end()
		c = b.begin("prefixes", "long")
		c.op(opNew(0, k)).op(opWrite(0, b.data(b.n(500))))
		for n := 128; n <= 1<<18; n *= 2 {
			for _, m := range []int{n - 20, n - 1, n, n + 1, n + b.n(n)} {
				c.op(opSum(0, wl.PreLong+m)).op(opCRS(0, wl.PreLong+m))
			}
		}
		c.end()
	}
}

// Sizes: single writes whose size is at or next to a power of two (or three times
// one), clean or with one near-collision block somewhere, after 0 or more bytes.
func (b *B) Sizes(maxBits int, inject bool) {
	for bits := 6; bits <= maxBits; bits++ {
		for _, base := range []int{1 << bits, 3 << (bits - 1)} {
			for _, dlt := range []int{-64, -1, 0, 1, 64} {
				n := base + dlt
				if n < 64 || n > hugeN-64 {
					continue
				}
				for k := 0; k < 2; k++ {
					c := b.begin("sizes", fmt.Sprintf("%d bytes", n))
					d := ref3{b.big, b.n(bigN - n + 1), n}
					if n > bigN/2 {
						d = ref3{b.huge, b.n(hugeN - n + 1), n}
					}
					if inject {
						b.injectAll(c, b.dm0)
						if n <= 1<<17 {
							var p []byte
							for p == nil {
								p = PassBlock(b.R, b.n(32))
							}
							m := append([]byte(nil), b.bytes(d.blob)[d.off:d.off+n]...)
							nb := n / 64
							copy(m[64*pick(b, 0, nb-1, nb/2, b.n(nb)):], p)
							d = ref3{b.lit(m), 0, n}
						}
					}
					q := 1 + b.n(63)
					c.op(opNew(0, k)).op(opWrite(0, d)).op(opCRS(0, 0)).op(opSumFn(k, d))
					c.op(opReset(0)).op(opWrite(0, ref3{d.blob, d.off, q})).op(opWrite(0, d)).op(opCRS(0, 0))
					c.op(opWrite(0, d)).op(opCRS(0, 0))
					c.end()
				}
			}
		}
	}
}

// ManyFlagged: messages with very many near-collision blocks, observed after every
// one of the first few hundred and around powers of two.
func (b *B) ManyFlagged(total int) {
	var blk []byte
	for blk == nil {
		blk = PassBlock(b.R, b.n(32))
	}
	d := ref3{b.lit(bytes.Repeat(blk, total+1)), 0, 64 * (total + 1)}
	at := func(i, n int) ref3 { return ref3{d.blob, 64 * i, 64 * n} }
	for k := 0; k < 2; k++ {
		c := b.begin("manyflagged", fmt.Sprintf("%d near-collision blocks, one by one", min(total, 600)))
		b.injectAll(c, b.dm0)
		c.op(opNew(0, k))
		for i := 0; i < min(total, 600); i++ {
			c.op(opWrite(0, at(i, 1))).op(opCRS(0, 0))
		}
		c.op(opWrite(0, ref3{d.blob, 7, 50})).op(opCRS(0, 0)).op(opReset(0)).op(opCRS(0, 0))
		c.end()
		c = b.begin("manyflagged", fmt.Sprintf("up to %d near-collision blocks in one write", total))
		b.injectAll(c, b.dm0)
		for n := 2; n <= total; n *= 2 {
			for _, m := range []int{n - 1, n, n + 1} {
				if n > 512 && m != n && n < total {
					continue
				}
				c.op(opNew(0, k)).op(opWrite(0, at(0, m))).op(opCRS(0, 0))
				if n <= 1024 || n == total {
					c.op(opSumFn(k, at(0, m)))
				}
			}
		}
		c.end()
	}
}
