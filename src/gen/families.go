package gen

import (
	"encoding/binary"
	"fmt"
	"math/bits"

	"vmon/ref"
	"vmon/wl"
)

// ---- plain messages ----

// Lengths: every length 0..max, one shot and streamed, both packages.
func (b *B) Lengths(max, kinds int) {
	for n := 0; n <= max; n++ {
		c := b.begin("lengths", fmt.Sprintf("len %d", n))
		for k := 0; k < kinds; k++ {
			d := b.data(n)
			o := opSumFn(k, d)
			b.bufMode(&o)
			c.op(o)
			s := k
			c.op(opNew(s, k))
			for _, w := range b.split(s, d, true) {
				c.op(w)
			}
			c.op(opSum(s, b.pre())).op(opCRS(s, b.pre()))
		}
		c.end()
	}
}

// Clean: messages of many shapes, most of them containing blocks that pass the
// bit conditions and therefore go through the recompression test.
func (b *B) Clean(count, max int) {
	for i := 0; i < count; i++ {
		c := b.begin("clean", "random message")
		k := b.kind()
		c.op(opNew(0, k))
		pieces := 1 + b.n(4)
		for p := 0; p < pieces; p++ {
			for _, w := range b.split(0, b.data(b.length(max)), true) {
				c.op(w)
			}
		}
		c.op(opCRS(0, b.pre()))
		if b.chance(1, 3) {
			d := b.data(b.length(max))
			o := opSumFn(k, d)
			b.bufMode(&o)
			c.op(o)
		}
		c.end()
	}
}

// PassBlocks: for each DV, blocks that satisfy its conditions at varied
// positions: recompressed, not a collision, so plain SHA-1.
func (b *B) PassBlocks(perDV int) {
	for dv := 0; dv < 32; dv++ {
		for j := 0; j < perDV; j++ {
			var m []byte
			m = append(m, wl.Rand(b.R.Uint64(), b.n(3)*64+pick(b, 0, 0, b.n(64)))...)
			k := 1 + b.n(4)
			for x := 0; x < k; x++ {
				m = append(m, PassBlock(b.R, dv)...)
			}
			m = append(m, wl.Rand(b.R.Uint64(), b.n(100))...)
			if b.chance(1, 3) {
				t := uint64(len(m)/64*64 + 20 + b.n(36))
				if p := PadTail(b.R, dv, t); p != nil {
					m = append(m[:len(m)/64*64], p...)
				}
			}
			c := b.begin("passing", fmt.Sprintf("blocks satisfying the conditions of DV #%d", dv))
			bl := b.lit(m)
			kd := b.kind()
			c.op(opNew(0, kd))
			for _, w := range b.split(0, ref3{bl, 0, len(m)}, true) {
				c.op(w)
			}
			c.op(opCRS(0, b.pre())).op(opSumFn(kd, ref3{bl, 0, len(m)}))
			c.end()
		}
	}
}

// Bulk: long messages in one write and in many.
func (b *B) Bulk(inject bool, sizes ...int) {
	for _, n := range sizes {
		for k := 0; k < 2; k++ {
			c := b.begin("bulk", fmt.Sprintf("%d bytes inject=%v", n, inject))
			if inject {
				b.injectAll(c, b.dm0)
			}
			d := ref3{b.huge, b.n(hugeN - n + 1), n}
			c.op(opNew(0, k)).op(opWrite(0, d)).op(opCRS(0, 0))
			c.op(opReset(0))
			for _, w := range b.split(0, d, false) {
				c.op(w)
			}
			c.op(opCRS(0, 0))
			c.op(opReset(0))
			// offset by a partial block
			q := 1 + b.n(63)
			c.op(opWrite(0, ref3{d.blob, d.off, q})).op(opWrite(0, ref3{d.blob, d.off + q, n - q})).op(opCRS(0, 0))
			c.op(opSumFn(k, d))
			c.end()
		}
	}
}

// ManyWrites: very many small writes to one hash.
func (b *B) ManyWrites(inject bool, count int) {
	for k := 0; k < 2; k++ {
		for _, step := range []int{1, 3, 64} {
			c := b.begin("manywrites", fmt.Sprintf("%d writes of %d", count, step))
			if inject {
				b.injectAll(c, b.dm0)
			}
			c.op(opNew(0, k))
			off := b.n(1000)
			for i := 0; i < count; i++ {
				c.op(opWrite(0, ref3{b.huge, (off + i*step) % (hugeN - 64), step}))
			}
			c.op(opCRS(0, 0))
			c.end()
		}
	}
}

// ---- histories ----

type HistOpt struct {
	Inject   bool // every passing block counts as a collision
	Marshal  bool
	BadState bool
	Reset    int // weight
	Slots    int
	Ops      int
	MaxLen   int
	OnlyKind int // -1: any
	Base     int // first slot
	Lane     bool
}

// states that a history may restore, with or without the flag
func (b *B) histOps(o HistOpt) []wl.Op {
	var ops []wl.Op
	kinds := make([]int, o.Slots)
	for s := range kinds {
		kinds[s] = b.kind()
		if o.OnlyKind >= 0 {
			kinds[s] = o.OnlyKind
		}
		ops = append(ops, opNew(o.Base+s, kinds[s]))
	}
	// The history is also executed on the model here, to have states to restore.
	tbl := b.std
	if o.Inject {
		tbl = b.zeroTable()
	}
	md := make([]*ref.Digest, o.Slots)
	for s := range md {
		md[s] = ref.New(tbl)
	}
	var saved [][]byte
	for len(ops) < o.Ops {
		i := b.n(o.Slots)
		s := o.Base + i
		x := b.n(100)
		switch {
		case x < 45:
			d := b.data(b.length(o.MaxLen))
			w := opWrite(s, d)
			b.bufMode(&w)
			if o.Lane && b.chance(1, 2) {
				w.M, w.N = wl.BufShared, 0
			}
			ops = append(ops, w)
			md[i].Write(b.bytes(d.blob)[d.off : d.off+d.n])
		case x < 55:
			ops = append(ops, opSum(s, b.pre()))
		case x < 70:
			ops = append(ops, opCRS(s, b.pre()))
		case x < 70+o.Reset:
			ops = append(ops, opReset(s))
			md[i].Reset()
		case x < 80:
			if o.Marshal && kinds[i] == wl.KGo {
				ops = append(ops, opMarshal(s))
				saved = append(saved, md[i].Marshal())
			}
		case x < 88:
			if o.Marshal && kinds[i] == wl.KGo {
				var st []byte
				switch {
				case len(saved) > 0 && b.chance(3, 4):
					st = saved[b.n(len(saved))]
				default:
					st = b.state(b.chance(1, 2))
				}
				u := opUnm(s, ref3{b.lit(st), 0, len(st)})
				b.bufMode(&u)
				ops = append(ops, u)
				md[i].Unmarshal(st)
			}
		case x < 92:
			if o.BadState && kinds[i] == wl.KGo {
				st := b.badState()
				u := opUnm(s, ref3{b.lit(st), 0, len(st)})
				b.bufMode(&u)
				ops = append(ops, u)
			}
		case x < 94:
			ops = append(ops, opSize(s))
		case x < 96:
			d := b.data(b.length(o.MaxLen / 2))
			f := opSumFn(kinds[i], d)
			b.bufMode(&f)
			ops = append(ops, f)
		case x < 98:
			j := b.n(o.Slots)
			if j != i {
				ops = append(ops, wl.Op{Code: wl.OpSumTo, S: s, K: b.n(2), N: uint64(o.Base + j)})
				h, _ := md[i].Sum()
				md[j].Write(h)
			}
		default:
			if b.chance(1, 4) {
				ops = append(ops, wl.Op{Code: wl.OpGC})
			} else {
				ops = append(ops, opNew(s, kinds[i]))
				md[i] = ref.New(tbl)
			}
		}
	}
	for i := range kinds {
		ops = append(ops, opCRS(o.Base+i, b.pre()))
		if o.Marshal && kinds[i] == wl.KGo {
			ops = append(ops, opMarshal(o.Base+i))
		}
	}
	return ops
}

var zt *ref.Table

func (b *B) zeroTable() *ref.Table {
	if zt == nil {
		zt = ref.StdTable()
		for i := range zt.Dm {
			zt.Dm[i] = [80]uint32{}
		}
	}
	return zt
}

func (b *B) Histories(name string, count int, o HistOpt) {
	for i := 0; i < count; i++ {
		c := b.begin(name, fmt.Sprintf("history of %d ops on %d hashes inject=%v", o.Ops, o.Slots, o.Inject))
		if o.Inject {
			b.injectAll(c, b.dm0)
		}
		for _, x := range b.histOps(o) {
			c.op(x)
		}
		c.end()
	}
}

// ---- attacks ----

// Attack: the published collisions with random suffixes, chunkings, observers.
func (b *B) Attack(count int) {
	for i := 0; i < count; i++ {
		a := i % 4
		k := pick(b, wl.KGo, wl.KCgo)
		c := b.begin("attack", AttackFiles[a])
		suffix := b.data(b.length(3000))
		sib := a ^ 1
		for s, x := range []int{a, sib} {
			c.op(opNew(s, k))
			feed := func() {
				for _, w := range b.split(s, ref3{b.att[x], 0, b.attLen[x]}, true) {
					c.op(w)
					if b.chance(1, 6) {
						c.op(opCRS(s, b.pre()))
					}
					if b.chance(1, 12) {
						c.op(opSum(s, b.pre()))
					}
					if k == wl.KGo && b.chance(1, 20) {
						c.op(opMarshal(s))
					}
				}
			}
			// sometimes after an earlier use of the same hash
			switch b.n(4) {
			case 0:
				for _, w := range b.split(s, b.data(b.length(500)), true) {
					c.op(w)
				}
				c.op(opReset(s))
			case 1:
				feed()
				c.op(opCRS(s, 0)).op(opReset(s)).op(opCRS(s, 0))
			}
			feed()
			c.op(opCRS(s, b.pre()))
			for _, w := range b.split(s, suffix, true) {
				c.op(w)
			}
			c.op(opCRS(s, b.pre())).op(opSum(s, b.pre()))
		}
		// one shot
		msg := append(append([]byte{}, b.bytes(b.att[a])...), b.bytes(suffix.blob)[suffix.off:suffix.off+suffix.n]...)
		o := opSumFn(k, ref3{b.lit(msg), 0, len(msg)})
		b.bufMode(&o)
		c.op(o)
		c.end()
	}
}

type nearBlock struct {
	ihv   [5]uint32
	block []byte
	file  int
	idx   int
}

func (b *B) nearBlocks() (out []nearBlock) {
	for a := range b.att {
		h := ref.IV
		m := b.bytes(b.att[a])
		for i := 0; i+64 <= len(m); i += 64 {
			// chain like plain SHA-1 too: the attack's own second block needs the
			// real chaining value
			n, bi := ref.Block(h, m[i:i+64], b.std)
			if bi.Detected {
				out = append(out, nearBlock{h, m[i : i+64], a, i / 64})
				w := ref.Expand(m[i : i+64])
				n = ref.Compress(h, &w, nil)
			}
			h = n
		}
	}
	return
}

// AttackStates: near-collision blocks reached through a restored state, at any
// claimed length and with any part of the block already buffered.
func (b *B) AttackStates(count int) {
	nb := b.nearBlocks()
	for i := 0; i < count; i++ {
		x := nb[i%len(nb)]
		have := b.n(64)
		if b.chance(1, 3) {
			have = 0
		}
		n := b.stateLen()/64*64 + uint64(have)
		flag := b.chance(1, 5)
		mg := ref.MagicClean
		if flag {
			mg = ref.MagicCollided
		}
		st := ref.State(mg, x.ihv, x.block[:have], n)
		rest := append(append([]byte{}, x.block[have:]...), wl.Rand(b.R.Uint64(), b.n(200))...)
		c := b.begin("attackstate", fmt.Sprintf("%s block %d at length %d", AttackFiles[x.file], x.idx, n))
		c.op(opNew(0, wl.KGo))
		if b.chance(1, 3) {
			c.op(opWrite(0, b.data(b.length(300))))
		}
		c.op(opUnm(0, ref3{b.lit(st), 0, len(st)})).op(opCRS(0, b.pre()))
		for _, w := range b.split(0, ref3{b.lit(rest), 0, len(rest)}, true) {
			c.op(w)
		}
		c.op(opCRS(0, b.pre())).op(opMarshal(0))
		c.op(opReset(0)).op(opCRS(0, 0))
		c.end()
	}
}

// AttackFlips: single-bit changes of the near-collision blocks: no longer part
// of an attack (the reference decides), so plain SHA-1 again.
func (b *B) AttackFlips(stride int) {
	nb := b.nearBlocks()
	for _, x := range nb {
		c := b.begin("attackflip", fmt.Sprintf("%s block %d", AttackFiles[x.file], x.idx))
		m := b.bytes(b.att[x.file])
		k := b.kind()
		for bit := b.n(stride); bit < 512; bit += stride {
			y := append([]byte{}, m...)
			y[x.idx*64+bit/8] ^= 1 << uint(bit%8)
			c.op(opSumFn(k, ref3{b.lit(y), 0, len(y)}))
		}
		c.end()
	}
}

// ---- conditions and table ----

// Masks: expanded and unconstrained word vectors around every condition of
// every DV.
func (b *B) Masks(perCond, random int) {
	emit := func(note string, ws ...[80]uint32) {
		c := b.begin("mask", note)
		for _, w := range ws {
			bl := b.lit(be(w[:]))
			c.op(opMask(0, bl)).op(opMask(1, bl))
		}
		c.end()
	}
	c := b.begin("mask", "nil")
	c.op(wl.Op{Code: wl.OpMask, M: 1})
	c.end()
	for dv := 0; dv < 32; dv++ {
		var ws [][80]uint32
		for j := 0; j < perCond; j++ {
			ws = append(ws, FreeW(b.R, dv, -1), ref.Expand(PassBlock(b.R, dv)))
			for s := range ref.DVs[dv].Conds {
				ws = append(ws, FreeW(b.R, dv, s))
				if nb := NearBlock(b.R, dv, s); nb != nil {
					ws = append(ws, ref.Expand(nb))
				}
			}
		}
		emit(fmt.Sprintf("conditions of DV #%d", dv), ws...)
	}
	var ws [][80]uint32
	for i := 0; i < random; i++ {
		var w [80]uint32
		switch b.n(6) {
		case 0:
			w = ref.Expand(ManyBlock(b.R))
		case 1: // many DVs, one random word disturbed
			w = ref.Expand(ManyBlock(b.R))
			w[b.n(80)] ^= 1 << uint(b.n(32))
		case 2: // sparse
			for j := 0; j < 1+b.n(6); j++ {
				w[b.n(80)] |= 1 << uint(b.n(32))
			}
		case 3: // dense
			for j := range w {
				w[j] = 0xffffffff
			}
			for j := 0; j < 1+b.n(6); j++ {
				w[b.n(80)] &^= 1 << uint(b.n(32))
			}
		case 4: // all conditions of several DVs, unconstrained words
			w = FreeW(b.R, b.n(32), -1)
			for j := 0; j < 60; j++ {
				cs := ref.DVs[b.n(32)].Conds
				for _, c := range cs {
					if (w[c.I]>>uint(c.BI)^w[c.J]>>uint(c.BJ))&1 != uint32(c.P) {
						w[c.J] ^= 1 << uint(c.BJ)
					}
				}
			}
		default:
			for j := range w {
				w[j] = b.R.Uint32()
			}
		}
		ws = append(ws, w)
		if len(ws) == 64 {
			emit("random", ws...)
			ws = nil
		}
	}
	if len(ws) > 0 {
		emit("random", ws...)
	}
}

// Inject0: with a zero message difference for one DV, a block is a collision
// exactly when that DV's conditions hold: for each DV, passing and
// all-but-one-condition blocks, from random chaining values, at random places.
func (b *B) Inject0(perDV int) {
	for dv := 0; dv < 32; dv++ {
		nc := len(ref.DVs[dv].Conds)
		for j := 0; j < perDV; j++ {
			c := b.begin("inject0", fmt.Sprintf("DV #%d", dv))
			c.op(opInject(dv, b.dm0))
			for k := 0; k < 2; k++ {
				var m []byte
				m = append(m, wl.Rand(b.R.Uint64(), 64*b.n(4))...)
				for x := 0; x < 1+b.n(4); x++ {
					var blk []byte
					if b.chance(1, 2) {
						blk = PassBlock(b.R, dv)
					} else {
						blk = NearBlock(b.R, dv, b.n(nc))
					}
					if blk == nil {
						continue
					}
					m = append(m, blk...)
				}
				m = append(m, wl.Rand(b.R.Uint64(), b.n(130))...)
				d := ref3{b.lit(m), 0, len(m)}
				c.op(opNew(k, k))
				for _, w := range b.split(k, d, true) {
					c.op(w)
				}
				c.op(opCRS(k, b.pre()))
				c.op(opSumFn(k, d))
			}
			c.end()
		}
	}
}

// localDm is the message difference of a local collision started at step s
// (possibly before step 0 or running past step 79) in bit j.
func localDm(s, j int) (dm [80]uint32) {
	put := func(t, bit int) {
		if t >= 0 && t < 80 {
			dm[t] ^= 1 << uint((bit+64)%32)
		}
	}
	put(s, j)
	put(s+1, j+5)
	put(s+2, j)
	put(s+3, j+30)
	put(s+4, j+30)
	put(s+5, j+30)
	return
}

type outcome struct {
	same bool
	word int // only differing word, or -1
}

func classify(T int, h [5]uint32, blk []byte, dm *[80]uint32) outcome {
	w := ref.Expand(blk)
	var st [81][5]uint32
	out := ref.Compress(h, &w, &st)
	r := ref.Recompress(T, st[T], &w, dm)
	n, word := 0, -1
	for i := range r {
		if r[i] != out[i] {
			n++
			word = i
		}
	}
	if n == 0 {
		return outcome{true, -1}
	}
	if n == 1 {
		return outcome{false, word}
	}
	return outcome{false, -1}
}

// InjectLocal: message differences consisting of one local collision (or part
// of one) at every step: true collisions with a non-trivial difference, and
// differences confined to a single output word.
func (b *B) InjectLocal(perDV int) {
	for dv := 0; dv < 32; dv++ {
		T := ref.DVs[dv].TestT
		wantWord := map[int]int{}
		for j := 0; j < perDV; j++ {
			s := -5 + b.n(85)
			if j%3 == 0 {
				s = 75 + b.n(5)
			}
			if j%7 == 1 {
				s = -5 + b.n(6)
			}
			bit := b.n(32)
			dm := localDm(s, bit)
			// prefix gives the chaining value (both packages)
			prefix := wl.Rand(b.R.Uint64(), 64)
			h, bi := ref.Block(ref.IV, prefix, b.std)
			if bi.Mask != 0 {
				continue
			}
			var best []byte
			note := "random"
			for try := 0; try < 60; try++ {
				blk := PassBlock(b.R, dv)
				o := classify(T, h, blk, &dm)
				if o.same {
					best, note = blk, "collision"
					if j%2 == 0 {
						break
					}
				} else if o.word >= 0 && (best == nil || note == "random") {
					best, note = blk, fmt.Sprintf("only word %d differs", o.word)
					if j%2 == 1 && wantWord[o.word] < 8 {
						wantWord[o.word]++
						break
					}
				} else if best == nil {
					best = blk
				}
			}
			c := b.begin("injectlocal", fmt.Sprintf("DV #%d local collision at step %d bit %d: %s", dv, s, bit, note))
			c.op(opInject(dv, b.lit(be(dm[:]))))
			m := append(append([]byte{}, prefix...), best...)
			d := ref3{b.lit(m), 0, len(m)}
			for k := 0; k < 2; k++ {
				c.op(opSumFn(k, d)).op(opNew(k, k))
				for _, w := range b.split(k, d, false) {
					c.op(w)
				}
				c.op(opCRS(k, 0))
			}
			c.end()
		}
	}
}

// InjectStep: a one-step message difference is never a collision.
func (b *B) InjectStep(perDV int) {
	for dv := 0; dv < 32; dv++ {
		c := b.begin("injectstep", fmt.Sprintf("DV #%d", dv))
		for j := 0; j < perDV; j++ {
			t := b.n(80)
			if perDV >= 80 {
				t = j % 80
			}
			var dm [80]uint32
			dm[t] = 1 << uint(b.n(32))
			if b.chance(1, 4) {
				dm[t] = b.R.Uint32() | 1
			}
			c.op(opInject(dv, b.lit(be(dm[:]))))
			blk := PassBlock(b.R, dv)
			d := ref3{b.lit(blk), 0, 64}
			c.op(opSumFn(0, d)).op(opSumFn(1, d))
		}
		c.end()
	}
}

// InjectPad: collisions in the padding block, which only Sum sees; the hash
// goes on afterwards as if Sum had not been called.
func (b *B) InjectPad(perDV int) {
	for dv := 0; dv < 32; dv++ {
		for j := 0; j < perDV; j++ {
			tail := 20 + b.n(36)
			pre := 64 * b.n(5)
			p := PadTail(b.R, dv, uint64(pre+tail))
			if p == nil {
				continue
			}
			// the prefix must be clean under the injected table
			var m []byte
			for len(m) < pre {
				blk := wl.Rand(b.R.Uint64(), 64)
				w := ref.Expand(blk)
				if ref.Mask(&w) == 0 {
					m = append(m, blk...)
				}
			}
			m = append(m, p...)
			d := ref3{b.lit(m), 0, len(m)}
			c := b.begin("injectpad", fmt.Sprintf("DV #%d, %d bytes", dv, len(m)))
			c.op(opInject(dv, b.dm0))
			for k := 0; k < 2; k++ {
				c.op(opSumFn(k, d)).op(opNew(k, k))
				for _, w := range b.split(k, d, true) {
					c.op(w)
				}
				c.op(opCRS(k, b.pre())).op(opSum(k, b.pre())).op(opCRS(k, b.pre()))
				if k == wl.KGo {
					c.op(opMarshal(k))
				}
				c.op(opWrite(k, b.data(1+b.n(100)))).op(opCRS(k, b.pre()))
				c.op(opReset(k)).op(opCRS(k, 0))
			}
			c.end()
		}
	}
}

// purePad: the last padding block of a message of n bytes, when it holds no
// byte of the message (n%64 is 0 or at least 56).
func purePad(n uint64) (mask uint32) {
	blk := make([]byte, 64)
	if n%64 == 0 {
		blk[0] = 0x80
	}
	binary.BigEndian.PutUint64(blk[56:], n<<3)
	w := ref.Expand(blk)
	return ref.Mask(&w)
}

var padRems = []uint64{0, 56, 57, 58, 59, 60, 61, 62, 63}

// PurePadStates: as InjectPad where the padding block holds no message bytes.
// Its contents are then the message length alone, so the length has to be one
// whose padding satisfies some DV; it is reached by restoring a state.
func (b *B) PurePadStates(perRem int) {
	for _, q := range padRems {
		for i := 0; i < perRem; i++ {
			var n uint64
			var mask uint32
			for try := 0; mask == 0; try++ {
				if try > 1<<20 {
					panic("no padding block found")
				}
				n = b.R.Uint64()>>uint(3+b.n(34))&^63 + q
				if n < 1<<12 || n >= 1<<61 {
					continue
				}
				mask = purePad(n)
			}
			dv := -1
			for j := range ref.DVs {
				if mask>>uint(ref.DVs[j].Bit)&1 != 0 && (dv < 0 || b.chance(1, 2)) {
					dv = j
				}
			}
			var h [5]uint32
			for j := range h {
				h[j] = b.R.Uint32()
			}
			c := b.begin("purepad", fmt.Sprintf("padding block of a %d-byte message, DV #%d", n, dv))
			c.op(opInject(dv, b.dm0))
			m := b.cleanBlocks(6)
			back := uint64(b.n(3))*64 + uint64(b.n(64))
			n0 := n - back
			r := int(n0 % 64)
			st := ref.State(ref.MagicClean, h, m[:r], n0)
			bl := b.lit(m)
			c.op(opNew(0, wl.KGo)).op(opUnm(0, ref3{b.lit(st), 0, 98}))
			c.op(opWrite(0, ref3{bl, r, int(back)})).op(opCRS(0, 0)).op(opSum(0, 0)).op(opCRS(0, 0)).op(opMarshal(0))
			c.op(opWrite(0, ref3{bl, 0, 1})).op(opCRS(0, 0)).op(opReset(0)).op(opCRS(0, 0))
			c.end()
		}
	}
}

// PurePadWrites: the same reached by writing the whole message, which is what
// the C library needs. The shortest such messages have 8 MiB or more.
func (b *B) PurePadWrites(count int) {
	mod := []uint64{0, 1, 0, 3, 2, 5, 4, 7, 6}
	for i := 0; i < count; i++ {
		q := padRems[mod[i%len(mod)]]
		base := uint64(8650752)
		if q != 0 && q%2 == 0 {
			base = 9699328
		} else if q != 0 {
			base = 19415040
		}
		n := base + q
		for j := b.n(500); j > 0 || purePad(n) == 0; j-- {
			n += 64
		}
		c := b.begin("purepad", fmt.Sprintf("padding block of a %d-byte message", n))
		mask := purePad(n)
		for j := range ref.DVs {
			if mask>>uint(ref.DVs[j].Bit)&1 != 0 {
				c.op(opInject(j, b.dm0))
			}
		}
		k := (i + 1) % 2
		c.op(opNew(0, k))
		left := int(n)
		c.op(opWrite(0, ref3{b.huge, 0, 5 * 64 * 1000}))
		left -= 5 * 64 * 1000
		for left > 0 {
			x := min(left, hugeN)
			c.op(opWrite(0, ref3{b.huge, hugeN - x, x}))
			left -= x
		}
		c.op(opCRS(0, 0)).op(opSum(0, 0)).op(opWrite(0, b.data(3))).op(opCRS(0, 0))
		c.end()
	}
}

// InjectPos: a lone near-collision block among clean ones at every position of
// messages of up to max blocks, reaching it by every kind of write.
func (b *B) InjectPos(count, max int) {
	for i := 0; i < count; i++ {
		n := 1 + b.n(max)
		pos := b.n(n)
		if i%5 == 0 {
			pos = n - 1
		}
		if i%5 == 1 {
			pos = 0
		}
		dv := b.n(32)
		m := b.cleanBlocks(n)
		copy(m[pos*64:], PassBlock(b.R, dv))
		m = append(m, wl.Rand(b.R.Uint64(), b.n(64))...)
		d := ref3{b.lit(m), 0, len(m)}
		c := b.begin("injectpos", fmt.Sprintf("near-collision block %d of %d, DV #%d", pos, n, dv))
		c.op(opInject(dv, b.dm0))
		for k := 0; k < 2; k++ {
			c.op(opNew(k, k)).op(opWrite(k, d)).op(opCRS(k, 0)).op(opReset(k))
			for _, w := range b.split(k, d, true) {
				c.op(w)
			}
			c.op(opCRS(k, 0)).op(opSumFn(k, d))
		}
		c.end()
	}
}

// cleanBlocks: n blocks none of which satisfies any DV.
func (b *B) cleanBlocks(n int) []byte {
	m := make([]byte, 0, 64*n)
	for len(m) < 64*n {
		blk := wl.Rand(b.R.Uint64(), 64)
		w := ref.Expand(blk)
		if ref.Mask(&w) == 0 {
			m = append(m, blk...)
		}
	}
	return m
}

// ---- states ----

func (b *B) badState() []byte {
	st := b.state(b.chance(1, 2))
	switch b.n(7) {
	case 0: // any length but the right one
		return st[:b.n(98)]
	case 1:
		return append(st, wl.Rand(b.R.Uint64(), 1+b.n(60))...)
	case 2: // identifier damaged
		st[b.n(6)] ^= byte(1 + b.n(255))
		if string(st[:6]) == ref.MagicClean || string(st[:6]) == ref.MagicCollided {
			st[0] ^= 0x20
		}
		return st
	case 3: // the standard library's identifier
		return append([]byte("sha\x01"), st[6:]...)
	case 4:
		copy(st, "sha\x01\x00\x00")
		return st
	case 5:
		return nil
	default:
		r := wl.Rand(b.R.Uint64(), b.n(200))
		if len(r) == 98 {
			r[0] = 'x'
		}
		return r
	}
}

func (b *B) BadStates(all bool, random int) {
	good := b.state(false)
	goodC := b.state(true)
	var list [][]byte
	for n := 0; n <= 200; n++ {
		if n == 98 {
			continue
		}
		for _, g := range [][]byte{good, goodC} {
			x := append(append([]byte{}, g...), make([]byte, 200)...)
			list = append(list, x[:n])
		}
	}
	for i := 0; i < 6; i++ {
		for bit := 0; bit < 8; bit++ {
			x := append([]byte{}, good...)
			x[i] ^= 1 << uint(bit)
			if string(x[:6]) == ref.MagicCollided {
				continue
			}
			list = append(list, x)
		}
	}
	for v := 0; v < 256; v++ {
		if v == 1 || v == 2 {
			continue
		}
		x := append([]byte{}, good...)
		x[5] = byte(v)
		list = append(list, x)
	}
	for i := 0; i < random; i++ {
		list = append(list, b.badState())
	}
	for _, x := range list {
		c := b.begin("badstate", fmt.Sprintf("%d bytes", len(x)))
		u := opUnm(0, ref3{b.lit(x), 0, len(x)})
		b.bufMode(&u)
		c.op(opNew(0, wl.KGo))
		switch b.n(4) {
		case 0:
		case 1: // into a hash that has found a collision
			a := 2 + b.n(2)
			c.op(opWrite(0, ref3{b.att[a], 0, b.attLen[a]}))
			c.op(opWrite(0, b.data(b.n(100))))
		default:
			c.op(opWrite(0, b.data(b.length(400))))
		}
		c.op(opMarshal(0)).op(u).op(opMarshal(0)).op(opCRS(0, b.pre()))
		c.op(opWrite(0, b.data(b.length(200)))).op(opCRS(0, b.pre()))
		c.end()
	}
}

// States: restoring arbitrary well-formed states, canonical or not, and going
// on from them.
func (b *B) States(count int, inject bool) {
	for i := 0; i < count; i++ {
		c := b.begin("state", fmt.Sprintf("restored state inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		st := b.state(b.chance(1, 3))
		if b.chance(1, 5) { // bytes beyond the buffered part
			copy(st[26:90], wl.Rand(b.R.Uint64(), 64))
		}
		c.op(opNew(0, wl.KGo))
		switch b.n(5) {
		case 0, 1:
			c.op(opWrite(0, b.data(b.length(300))))
		case 2:
			a := b.n(4)
			c.op(opWrite(0, ref3{b.att[a], 0, b.attLen[a]}))
			c.op(opWrite(0, b.data(b.n(64))))
		}
		u := opUnm(0, ref3{b.lit(st), 0, len(st)})
		b.bufMode(&u)
		c.op(u)
		if b.chance(1, 2) {
			c.op(opMarshal(0))
		}
		c.op(opCRS(0, b.pre()))
		for x := 0; x < b.n(4); x++ {
			w := opWrite(0, b.data(b.length(400)))
			b.bufMode(&w)
			c.op(w)
			if b.chance(1, 2) {
				c.op(opCRS(0, b.pre()))
			}
			if b.chance(1, 2) {
				c.op(opMarshal(0))
			}
		}
		c.op(opSum(0, b.pre())).op(opMarshal(0)).op(opReset(0)).op(opMarshal(0)).op(opCRS(0, 0))
		c.end()
	}
}

// Foreign: well-formed but meaningless states, any length field at all: no
// crash. Only the absence of panics is asserted beyond 2^61 bytes.
func (b *B) Foreign(count int) {
	for i := 0; i < count; i++ {
		st := wl.Rand(b.R.Uint64(), 98)
		copy(st, pick(b, ref.MagicClean, ref.MagicCollided))
		switch b.n(4) {
		case 0:
			binary.BigEndian.PutUint64(st[90:], ^uint64(0)-uint64(b.n(200)))
		case 1:
			binary.BigEndian.PutUint64(st[90:], 1<<63-100+uint64(b.n(200)))
		}
		c := b.begin("foreign", "random state")
		c.op(opNew(0, wl.KGo)).op(opUnm(0, ref3{b.lit(st), 0, 98})).op(opCRS(0, 0)).op(opMarshal(0))
		c.op(opWrite(0, b.data(b.length(300)))).op(opCRS(0, 0)).op(opMarshal(0)).op(opReset(0)).op(opCRS(0, 0))
		c.end()
	}
}

// SaveRestore: save at every point of a message, restore elsewhere, finish in
// both; including after a collision was found.
func (b *B) SaveRestore(count int, inject bool) {
	tbl := b.std
	if inject {
		tbl = b.zeroTable()
	}
	for i := 0; i < count; i++ {
		c := b.begin("saverestore", fmt.Sprintf("inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		var msg []byte
		switch b.n(4) {
		case 0:
			a := b.n(4)
			msg = append(msg, b.bytes(b.att[a])...)
			msg = append(msg, wl.Rand(b.R.Uint64(), b.n(300))...)
		default:
			d := b.data(b.length(1500))
			msg = append(msg, b.bytes(d.blob)[d.off:d.off+d.n]...)
		}
		cut := b.n(len(msg) + 1)
		bl := b.lit(msg)
		md := ref.New(tbl)
		md.Write(msg[:cut])
		st := md.Marshal()
		c.op(opNew(0, wl.KGo)).op(opNew(1, wl.KGo))
		for _, w := range b.split(0, ref3{bl, 0, cut}, true) {
			c.op(w)
		}
		c.op(opMarshal(0))
		// dirty the destination
		switch b.n(4) {
		case 0:
			c.op(opWrite(1, b.data(b.length(300))))
		case 1:
			a := b.n(4)
			c.op(opWrite(1, ref3{b.att[a], 0, b.attLen[a]}))
		case 2:
			c.op(opWrite(1, b.data(b.n(130)))).op(opReset(1))
		}
		if b.chance(1, 3) { // the source goes on before its state is restored
			c.op(opWrite(0, b.data(b.n(100)))).op(opReset(0))
			for _, w := range b.split(0, ref3{bl, 0, cut}, true) {
				c.op(w)
			}
		}
		u := opUnm(1, ref3{b.lit(st), 0, len(st)})
		b.bufMode(&u)
		c.op(u).op(opCRS(1, b.pre()))
		for s := 0; s < 2; s++ {
			for _, w := range b.split(s, ref3{bl, cut, len(msg) - cut}, true) {
				c.op(w)
			}
			c.op(opCRS(s, b.pre())).op(opMarshal(s))
		}
		c.end()
	}
}

// ---- size ----

// BigLens: states just below length boundaries, crossed by writes.
func (b *B) BigLens(count int, inject bool) {
	bounds := []uint64{1 << 28, 1 << 29, 1 << 31, 1 << 32, 1 << 35, 1 << 36, 1 << 40, 1 << 48, 1 << 53, 1 << 56, 1 << 60}
	for i := 0; i < count; i++ {
		c := b.begin("biglen", fmt.Sprintf("inject=%v", inject))
		if inject {
			b.injectAll(c, b.dm0)
		}
		bd := bounds[i%len(bounds)]
		n := bd - uint64(b.n(300))
		if b.chance(1, 4) {
			n = bd + uint64(b.n(300))
		}
		var h [5]uint32
		for j := range h {
			h[j] = b.R.Uint32()
		}
		st := ref.State(ref.MagicClean, h, wl.Rand(b.R.Uint64(), 64)[:n%64], n)
		c.op(opNew(0, wl.KGo)).op(opUnm(0, ref3{b.lit(st), 0, 98})).op(opCRS(0, 0))
		for x := 0; x < 1+b.n(4); x++ {
			w := opWrite(0, b.data(b.length(700)))
			b.bufMode(&w)
			c.op(w).op(opCRS(0, b.pre()))
			if b.chance(1, 2) {
				c.op(opMarshal(0))
			}
		}
		c.op(opMarshal(0)).op(opReset(0)).op(opCRS(0, 0))
		c.end()
	}
}

// BigZero: one Write of more than 4 GiB (or n bytes), followed by a
// near-collision block.
func (b *B) BigZero(kind int, n uint64, inject, inside bool) {
	c := b.begin("bigzero", fmt.Sprintf("one write of %d bytes, inject=%v", n, inject))
	dv := -1
	if inject {
		var z [80]uint32
		for i := 0; i < 32; i++ {
			if ref.Mask(&z)>>uint(i)&1 == 0 {
				dv = i
				break
			}
		}
		if dv >= 0 {
			c.op(opInject(dv, b.dm0))
		}
	}
	head := 64 * b.n(3)
	if b.chance(1, 2) {
		head += b.n(64)
	}
	c.op(opNew(0, kind))
	m := b.cleanBlocks(5)
	c.op(opWrite(0, ref3{b.lit(m), 0, head}))
	big := wl.Op{Code: wl.OpBigZero, S: 0, N: n}
	if inject && inside {
		// one near-collision block deep inside the write
		pos := pick(b, n-200, 1<<31, 1<<31-64, n-1<<20, 1<<32-64, 1<<32)
		for pos+64 > n {
			pos -= 1 << 20
		}
		for (pos+uint64(head))%64 != 0 {
			pos--
		}
		big.Blob, big.Len, big.M = b.lit(PassBlock(b.R, dv)), 64, int(pos)
	}
	c.op(big)
	c.op(opCRS(0, 0))
	if dv >= 0 {
		// get to a block boundary, then the near-collision block
		k := int((64 - (uint64(head)+n)%64) % 64)
		c.op(opWrite(0, ref3{b.zeros, 0, k}))
		blk := PassBlock(b.R, dv)
		c.op(opWrite(0, ref3{b.lit(blk), 0, 64})).op(opCRS(0, 0))
	}
	c.op(opWrite(0, ref3{b.text, 0, 100})).op(opCRS(0, 0))
	c.op(opReset(0)).op(opCRS(0, 0))
	c.end()
}

// ---- concurrency ----

// Parallel: independent hashes used concurrently, plus concurrent read-only
// observers of common, quiescent hashes, plus shared read-only input buffers.
func (b *B) Parallel(count, lanes, opsPer, rounds int, inject bool) {
	for i := 0; i < count; i++ {
		c := b.begin("parallel", fmt.Sprintf("%d lanes inject=%v", lanes, inject))
		if inject {
			blob := b.dm0
			b.injectAll(c, blob)
		}
		// shared, quiescent hashes 0..3
		for s := 0; s < 4; s++ {
			k := s % 2
			c.op(opNew(s, k))
			if s >= 2 {
				a := b.n(4)
				c.op(opWrite(s, ref3{b.att[a], 0, b.attLen[a]}))
			}
			c.op(opWrite(s, b.data(b.length(300))))
		}
		p := wl.Op{Code: wl.OpPar, N: uint64(rounds)}
		for l := 0; l < lanes; l++ {
			ops := b.histOps(HistOpt{Inject: inject, Marshal: true, BadState: true, Reset: 4, Slots: 1 + b.n(3), Ops: opsPer, MaxLen: 3000, OnlyKind: -1, Base: 16, Lane: true})
			var mix []wl.Op
			for _, o := range ops {
				if o.Code == wl.OpGC && b.chance(3, 4) {
					continue
				}
				mix = append(mix, o)
				if b.chance(1, 4) {
					s := b.n(4)
					switch b.n(5) {
					case 0:
						mix = append(mix, opSum(s, b.pre()))
					case 1:
						mix = append(mix, opSize(s))
					case 2:
						if s%2 == 0 {
							mix = append(mix, opMarshal(s))
						}
					default:
						mix = append(mix, opCRS(s, b.pre()))
					}
				}
				if b.chance(1, 10) {
					w := FreeW(b.R, b.n(32), -1)
					mix = append(mix, opMask(b.n(2), b.lit(be(w[:]))))
				}
				if b.chance(1, 10) {
					a := b.n(4)
					mix = append(mix, opSumFn(b.n(2), ref3{b.att[a], 0, b.attLen[a]}))
				}
			}
			p.Lanes = append(p.Lanes, mix)
		}
		c.op(p)
		for s := 0; s < 4; s++ {
			c.op(opCRS(s, 0))
		}
		c.end()
	}
}

// Hammer: lanes that do nothing but hash short messages with collisions in
// them, back to back.
func (b *B) Hammer(count, lanes, opsPer, rounds int) {
	for i := 0; i < count; i++ {
		c := b.begin("hammer", fmt.Sprintf("%d lanes", lanes))
		b.injectAll(c, b.dm0)
		p := wl.Op{Code: wl.OpPar, N: uint64(rounds)}
		for l := 0; l < lanes; l++ {
			var ops []wl.Op
			k := pick(b, 0, 0, 1)
			ops = append(ops, opNew(16, k))
			for x := 0; x < opsPer; x++ {
				var d ref3
				if b.chance(1, 2) {
					d = ref3{b.pass, 64 * b.n(b.npass-8), 64 * (1 + b.n(8))}
				} else {
					d = ref3{b.big, b.n(bigN - 600), 64 * (1 + b.n(8))}
				}
				switch b.n(4) {
				case 0:
					o := opSumFn(k, d)
					o.M = wl.BufShared
					ops = append(ops, o)
				case 1:
					ops = append(ops, opReset(16))
					fallthrough
				default:
					o := opWrite(16, d)
					o.M = wl.BufShared
					ops = append(ops, o, opCRS(16, 0))
				}
			}
			p.Lanes = append(p.Lanes, ops)
		}
		c.op(p)
		c.end()
	}
}

// Cold: lanes whose operations are the first the process performs at all.
func (b *B) Cold(count, lanes, opsPer int) {
	for i := 0; i < count; i++ {
		c := b.begin("cold", fmt.Sprintf("%d lanes", lanes))
		p := wl.Op{Code: wl.OpPar, N: 1}
		same := -1
		if b.chance(1, 2) {
			same = b.n(5)
		}
		for l := 0; l < lanes; l++ {
			var ops []wl.Op
			for x := 0; x < opsPer; x++ {
				what, k := b.n(5), b.n(2)
				if x == 0 && same >= 0 {
					what, k = same, i%2
				}
				a := b.n(4)
				att := ref3{b.att[a], 0, b.attLen[a]}
				switch what {
				case 0:
					ops = append(ops, opSumFn(k, att))
				case 1:
					ops = append(ops, opNew(16, k), opWrite(16, att), opCRS(16, 0))
				case 2:
					w := FreeW(b.R, b.n(32), -1)
					ops = append(ops, opMask(k, b.lit(be(w[:]))))
				case 3:
					ops = append(ops, opNew(17, k), opWrite(17, b.data(b.length(2000))), opSum(17, b.pre()))
				case 4:
					ops = append(ops, opNew(18, wl.KGo), opWrite(18, att), opMarshal(18), opCRS(18, 0))
				}
			}
			p.Lanes = append(p.Lanes, ops)
		}
		c.op(p)
		c.end()
	}
}

// Consts: exported constants and methods agree.
func (b *B) Consts() {
	c := b.begin("consts", "")
	for k := 0; k < 2; k++ {
		c.op(wl.Op{Code: wl.OpConsts, K: k}).op(opNew(k, k)).op(opSize(k))
	}
	c.end()
}

var _ = bits.Len

// Crossing: the total length passes the powers of two in question by small writes,
// observed at each.
func (b *B) Crossing(kind int, at ...uint64) {
	c := b.begin("crossing", fmt.Sprintf("small writes across %v", at))
	c.op(opNew(0, kind))
	var n uint64
	for _, p := range at {
		step := 60 + uint64(b.n(10))
		c.op(wl.Op{Code: wl.OpBigZero, S: 0, N: p - step - n})
		c.op(opCRS(0, 0))
		n = p - step
		for n < p+140 {
			k := 1 + b.n(20)
			if n < p && n+uint64(k) > p && b.chance(3, 4) {
				k = int(p - n)
			}
			c.op(opWrite(0, ref3{b.big, b.n(1000), k})).op(opCRS(0, 0))
			n += uint64(k)
		}
	}
	c.end()
}
