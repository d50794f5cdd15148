package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"

	"vmon/ref"
	"vmon/wl"
)

// The model executes a case against the reference and yields the event records
// a correct implementation must produce.

type mslot struct {
	d    *ref.Digest
	kind int
	msg  []byte // all bytes since New/Reset, while known
	know bool   // msg is the whole message
}

type modelLane struct {
	m      *model
	global map[int]*mslot
	local  map[int]*mslot
}

type model struct {
	w     *wl.Workload
	base  [2]*ref.Table // per kind, as dumped by the driver
	tbl   [2]*ref.Table
	dirty bool
	cgoGo bool // the cgo package is the Go fallback
	// replacing table entries has no effect on the hashes of this kind, per vector
	inert [2][]bool
	blocks, passing, detected,
	sums, flagged, clean, marshals, unmarshals, rejects, resets, writes, masks, maskbits uint64
	selfErr string
}

func cloneT(t *ref.Table) *ref.Table { c := *t; return &c }

func (m *model) resetTables() {
	if m.dirty || m.tbl[0] == nil {
		m.tbl[0] = cloneT(m.base[0])
		if m.cgoGo {
			m.tbl[1] = m.tbl[0]
		} else {
			m.tbl[1] = cloneT(m.base[1])
		}
		m.dirty = false
	}
}

func (m *model) runCase(c *wl.Case) [][]byte {
	m.resetTables()
	l := &modelLane{m: m, global: map[int]*mslot{}, local: map[int]*mslot{}}
	out := l.run(c.Ops)
	m.harvest(l.global)
	m.harvest(l.local)
	return out
}

func (m *model) harvest(s map[int]*mslot) {
	for _, x := range s {
		m.take(x.d)
	}
}
func (m *model) take(d *ref.Digest) {
	m.blocks += d.Blocks
	m.passing += d.Passing
	m.detected += d.Detected
	d.Blocks, d.Passing, d.Detected = 0, 0, 0
}

func (l *modelLane) run(ops []wl.Op) [][]byte {
	out := make([][]byte, len(ops))
	for i := range ops {
		out[i] = l.exec(&ops[i])
	}
	return out
}

func (l *modelLane) get(s int) *mslot {
	if s < 16 {
		return l.global[s]
	}
	return l.local[s]
}

func prefixBytes(mode int) []byte {
	b := make([]byte, wl.PreSize(mode))
	for i := range b {
		b[i] = 0xC9 ^ byte(i)
	}
	return b
}

// sum also cross-checks the reference with the standard library wherever the
// message is known and nothing was detected.
func (l *modelLane) sum(s *mslot) ([]byte, bool) {
	out, fl := s.d.Sum()
	l.m.sums++
	if fl {
		l.m.flagged++
	} else {
		l.m.clean++
		if s.know {
			std := sha1.Sum(s.msg)
			if !bytes.Equal(std[:], out) {
				l.m.selfErr = fmt.Sprintf("reference disagrees with crypto/sha1 on a %d-byte message", len(s.msg))
			}
		}
	}
	return out, fl
}

func (s *mslot) write(p []byte) {
	s.d.Write(p)
	if s.know {
		if len(s.msg)+len(p) > 1<<22 {
			s.know, s.msg = false, nil
		} else {
			s.msg = append(s.msg, p...)
		}
	}
}

func (l *modelLane) exec(o *wl.Op) []byte {
	m := l.m
	switch o.Code {
	case wl.OpNew:
		n := &mslot{d: ref.New(m.tbl[o.K]), kind: o.K, know: true}
		if o.S < 16 {
			l.global[o.S] = n
		} else {
			l.local[o.S] = n
		}
		return wl.RecNew(o.K, true, true, true)
	case wl.OpWrite:
		p := m.w.Data(o)
		l.get(o.S).write(p)
		m.writes++
		return wl.RecWrite(len(p), false, true)
	case wl.OpSum:
		out, _ := l.sum(l.get(o.S))
		return wl.RecSum(append(prefixBytes(o.M), out...), true, true)
	case wl.OpCRS:
		out, fl := l.sum(l.get(o.S))
		return wl.RecCRS(append(prefixBytes(o.M), out...), fl, true, true)
	case wl.OpReset:
		s := l.get(o.S)
		m.take(s.d)
		s.d.Reset()
		s.msg, s.know = nil, true
		m.resets++
		return wl.RecReset()
	case wl.OpMarshal:
		m.marshals++
		return wl.RecMarshal(l.get(o.S).d.Marshal(), false, true)
	case wl.OpUnmarshal:
		s := l.get(o.S)
		ok := s.d.Unmarshal(m.w.Data(o))
		if ok {
			s.know, s.msg = false, nil
			m.unmarshals++
		} else {
			m.rejects++
		}
		return wl.RecUnmarshal(!ok, true)
	case wl.OpSize, wl.OpConsts:
		return wl.RecSize(20, 64)
	case wl.OpSumFn:
		d := &mslot{d: ref.New(m.tbl[o.K]), kind: o.K, know: true}
		d.write(m.w.Data(o))
		out, fl := l.sum(d)
		m.take(d.d)
		return wl.RecSumFn(out, fl, true)
	case wl.OpMask:
		if o.M == 1 {
			return wl.RecMask(0, true)
		}
		p := m.w.Data(o)
		var W [80]uint32
		for i := range W {
			W[i] = binary.BigEndian.Uint32(p[4*i:])
		}
		mk := ref.Mask(&W)
		m.masks++
		for x := mk; x != 0; x &= x - 1 {
			m.maskbits++
		}
		return wl.RecMask(mk, true)
	case wl.OpInject:
		p := m.w.Data(o)
		var dm [80]uint32
		for i := range dm {
			dm[i] = binary.BigEndian.Uint32(p[4*i:])
		}
		m.dirty = true
		if o.K&1 != 0 && !m.inert[0][o.N] {
			m.tbl[0].Dm[o.N] = dm
		}
		if o.K&2 != 0 && !m.cgoGo && !m.inert[1][o.N] {
			m.tbl[1].Dm[o.N] = dm
		}
		return wl.RecInject(true)
	case wl.OpRestore:
		// Slots keep pointing at the same tables.
		m.tbl[0].Dm, m.tbl[1].Dm = m.base[0].Dm, m.base[1].Dm
		return wl.RecVoid('r')
	case wl.OpGC:
		return wl.RecVoid('g')
	case wl.OpBigZero:
		s := l.get(o.S)
		if o.Len > 0 {
			s.d.WriteZeros(uint64(o.M))
			s.d.Write(m.w.Data(o))
			s.d.WriteZeros(o.N - uint64(o.M) - uint64(o.Len))
		} else {
			s.d.WriteZeros(o.N)
		}
		s.know, s.msg = false, nil
		return wl.RecWrite(int(o.N), false, true)
	case wl.OpSumTo:
		out, fl := l.sum(l.get(o.S))
		l.get(int(o.N)).write(out)
		return wl.RecSumTo(20, false, fl && o.K == 1)
	case wl.OpPar:
		out := []byte{'P', 0}
		for _, ops := range o.Lanes {
			ln := &modelLane{m: m, global: l.global, local: map[int]*mslot{}}
			for _, r := range ln.run(ops) {
				out = binary.AppendUvarint(out, uint64(len(r)))
				out = append(out, r...)
			}
			m.harvest(ln.local)
		}
		return out
	}
	return wl.RecSkipped("?")
}
