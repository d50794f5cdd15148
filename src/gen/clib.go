package gen

import (
	"encoding/binary"
	"fmt"

	"vmon/ref"
	"vmon/wl"
)

// CStream is a sequence of operations for csrc/cdrv.c. Cases are separated by
// 'R', which also restores the table.
type CStream struct {
	b     *B
	Out   []byte
	Notes []string // one per case
	inv   bool
}

func NewCStream(b *B) *CStream { return &CStream{b: b, Out: []byte{'D'}} }

func (c *CStream) begin(note string) { c.Out = append(c.Out, 'R'); c.Notes = append(c.Notes, note) }
func (c *CStream) init(s int) {
	c.Out = append(c.Out, 'P', byte(s), byte(c.b.n(256)))
	var mix uint32
	if c.b.chance(2, 3) {
		mix = uint32(c.b.R.Uint64())
	}
	c.Out = binary.BigEndian.AppendUint32(c.Out, mix)
	c.Out = append(c.Out, 'I', byte(s))
}
func (c *CStream) opt(s, which int, v uint32) {
	c.Out = append(c.Out, 'O', byte(s), byte(which))
	c.Out = binary.BigEndian.AppendUint32(c.Out, v)
}
func (c *CStream) update(s int, p []byte) {
	c.Out = append(c.Out, 'U', byte(s), byte(c.b.n(16)))
	c.Out = binary.BigEndian.AppendUint32(c.Out, uint32(len(p)))
	c.Out = append(c.Out, p...)
}
func (c *CStream) final(s int)    { c.Out = append(c.Out, 'F', byte(s), byte(c.b.n(16))) }
func (c *CStream) clone(s, d int) { c.Out = append(c.Out, 'C', byte(s), byte(d)) }
func (c *CStream) inject(dv int, dm []byte) {
	d := c.b.W.DVs[dv]
	c.Out = append(c.Out, 'J', byte(d[0]), byte(d[1]), byte(d[2]))
	c.Out = append(c.Out, dm[:320]...)
}
func (c *CStream) End() []byte { return append(c.Out, 'E') }

// Translate turns the C-backed part of the cases of the workload into operations
// on the C library itself.
func (c *CStream) Translate(maxBytes int) {
	for i := range c.b.W.Cases {
		k := &c.b.W.Cases[i]
		if k.Flags&(wl.FlagBig|wl.FlagSlow) != 0 || k.Flags&wl.FlagCgo == 0 {
			continue
		}
		c.begin(k.Family + " " + k.Note)
		live := map[int]bool{}
		total := 0
		for j := range k.Ops {
			o := &k.Ops[j]
			if o.S > 5 {
				continue
			}
			switch o.Code {
			case wl.OpNew:
				live[o.S] = o.K == wl.KCgo
				if live[o.S] {
					c.init(o.S)
				}
			case wl.OpWrite:
				total += o.Len
				if live[o.S] && total < maxBytes {
					c.update(o.S, c.b.W.Data(o))
				}
			case wl.OpSum, wl.OpCRS:
				if live[o.S] {
					c.clone(o.S, 7)
					c.final(7)
				}
			case wl.OpReset:
				if live[o.S] {
					c.Out = append(c.Out, 'I', byte(o.S))
				}
			case wl.OpSumFn:
				total += o.Len
				if o.K == wl.KCgo && total < maxBytes {
					c.init(6)
					c.update(6, c.b.W.Data(o))
					c.final(6)
				}
			case wl.OpMask:
				if o.K == wl.KCgo && o.M == 0 {
					c.Out = append(append(c.Out, 'M'), c.b.W.Data(o)...)
				}
			case wl.OpInject:
				if o.K&2 != 0 {
					c.inject(int(o.N), c.b.W.Data(o))
				}
			}
		}
	}
}

// Options: every combination of the switches, set before or in the middle of a
// message, on ordinary data, on the attacks and on blocks detected by injection.
func (c *CStream) Options(count int) {
	b := c.b
	truth := []uint32{1, 1, 2, 0x100, 0x80000000, 0xFFFFFFFF, 7}
	set := func(s int, combo int) {
		for _, w := range b.R.Perm(4) {
			v := uint32(0)
			if combo>>w&1 != 0 {
				v = truth[b.n(len(truth))]
			}
			if b.chance(1, 5) { // set the other way first
				c.opt(s, w, 1-min(v, 1))
			}
			c.opt(s, w, v)
		}
	}
	for i := 0; i < count; i++ {
		combo := i % 16
		kind := i / 16 % 5
		c.begin(fmt.Sprintf("options %04b (reduced, detect, ubc, safe), kind %d", combo, kind))
		late := make([]byte, 320)
		switch kind {
		case 1: // one vector
			c.inject(b.n(32), make([]byte, 320))
		case 2: // all
			for d := 0; d < 32; d++ {
				c.inject(d, make([]byte, 320))
			}
		case 3: // a difference in the last steps only: a reduced-round collision
			late[4*(66+b.n(14))+b.n(4)] = 1 << uint(b.n(8))
			for d := 0; d < 32; d++ {
				if b.chance(1, 2) {
					c.inject(d, late)
				}
			}
		case 4: // a difference in the first steps only: no collision at all
			late[4*b.n(50)+b.n(4)] = 1 << uint(b.n(8))
			for d := 0; d < 32; d++ {
				if b.chance(1, 2) {
					c.inject(d, late)
				}
			}
		}
		var m []byte
		switch b.n(5) {
		case 0:
			m = wl.Rand(b.R.Uint64(), b.length(600))
		case 1, 2:
			a := b.n(4)
			m = append(m, b.bytes(b.att[a])...)
			m = append(m, wl.Rand(b.R.Uint64(), b.n(100))...)
		default:
			for j := 0; j < 1+b.n(5); j++ {
				if b.chance(1, 2) {
					m = append(m, PassBlock(b.R, b.n(32))...)
				} else {
					m = append(m, wl.Rand(b.R.Uint64(), 64)...)
				}
			}
			m = append(m, wl.Rand(b.R.Uint64(), b.n(64))...)
		}
		s := b.n(4)
		c.init(s)
		if b.chance(4, 5) {
			set(s, combo)
		}
		for len(m) > 0 {
			n := 1 + b.n(len(m))
			if b.chance(1, 2) {
				n = min(n, 1+b.n(130))
			}
			c.update(s, m[:n])
			m = m[n:]
			if b.chance(1, 8) {
				set(s, b.n(16))
			}
			if b.chance(1, 6) { // a copy of the context is a hash of its own
				d := (s + 1 + b.n(3)) % 4
				c.clone(s, d)
				c.update(d, wl.Rand(b.R.Uint64(), b.n(100)))
				c.final(d)
			}
		}
		if b.chance(1, 8) {
			set(s, b.n(16))
		}
		c.final(s)
		// initialising again forgets the switches and the verdict
		c.Out = append(c.Out, 'I', byte(s))
		if b.chance(1, 2) {
			p := b.bytes(b.att[b.n(4)])
			c.update(s, p)
		}
		c.final(s)
	}
}

// Long: lengths around a power of two reached by large and then small updates,
// with a digest taken of a copy before, at and after it.
func (c *CStream) Long(bit uint) {
	b := c.b
	c.begin(fmt.Sprintf("length crossing 2^%d", bit))
	c.init(0)
	left := uint64(1)<<bit - 200 - uint64(b.n(64))
	for _, n := range []uint64{65536, 1} {
		c.Out = append(c.Out, 'Z', 0)
		c.Out = binary.BigEndian.AppendUint32(c.Out, uint32(left/n))
		c.Out = binary.BigEndian.AppendUint32(c.Out, uint32(n))
		left %= n
	}
	for i := 0; i < 14; i++ {
		c.update(0, wl.Rand(b.R.Uint64(), 20+b.n(50)))
		c.clone(0, 7)
		c.final(7)
	}
	c.final(0)
}

// CPlan builds the stream of one property.
func CPlan(b *B, prop, tier string) *CStream {
	x := 1
	if tier == "thorough" {
		x = 10
	}
	c := NewCStream(b)
	if prop == "C12" {
		c.Long(29)
		c.Long(32)
		if tier == "thorough" {
			c.Long(31)
		}
		return c
	}
	b.Lengths(200, 2)
	b.PassBlocks(1)
	b.Attack(40 * x)
	b.AttackFlips(32)
	b.Masks(1, 800*x)
	b.Inject0(2 * x)
	b.InjectLocal(8 * x)
	b.InjectStep(40)
	b.InjectPad(1)
	b.InjectPos(20*x, 20)
	b.Twice(20 * x)
	b.Reuse(15*x, true)
	b.Histories("historyinj", 60*x, hist(true, false, false, 3, 3, 50, 1500, wl.KCgo))
	c.Translate(20000)
	if prop == "C16" {
		c.Options(2400 * x)
	} else {
		c.Options(160)
	}
	return c
}

var _ = ref.IV
