// Package wl defines the workload language executed by the driver (package
// drv, built against the code under test) and replayed by the offline checker
// (package mon, built against the reference model only).
package wl

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Op codes.
const (
	OpNew       = iota + 1 // S=slot K=kind
	OpWrite                // S, Blob[Off:Off+Len], M=buffer mode, N=mode parameter
	OpSum                  // S, M=prefix mode
	OpCRS                  // S, M=prefix mode
	OpReset                // S
	OpMarshal              // S
	OpUnmarshal            // S, Blob[Off:Off+Len]
	OpSize                 // S
	OpSumFn                // K=kind, Blob[Off:Off+Len], M=buffer mode, N=mode parameter
	OpMask                 // K=0 pure Go, 1 cgo package; Blob[Off:Off+320] big endian words; M=1: nil argument
	OpInject               // K=table bits (1 Go, 2 C), N=dv index in reference order, Blob[Off:+320]: XOR difference
	OpBigZero              // S, N=number of bytes in a single Write, all zero but for the blob placed at offset M
	OpPar                  // Lanes run concurrently; N=rounds
	OpGC                   // force a garbage collection
	OpRestore              // undo every injection (also done at the end of each case)
	OpConsts               // K=kind: exported Size and BlockSize constants
	OpSumTo                // S=source slot, K=kind of CRS(1)/Sum(0), N=destination slot: the result is written to the destination without copying
	OpAppend               // S, marshal appended? (reserved)
)

// Kinds of hash under test.
const (
	KGo  = 0 // github.com/pjbgf/sha1cd
	KCgo = 1 // github.com/pjbgf/sha1cd/cgo
)

// Buffer modes for the data handed to the code under test.
const (
	BufPlain    = 0  // exact heap slice
	BufGuardEnd = 1  // ends right before an inaccessible page
	BufGuardBeg = 2  // starts right after an inaccessible page
	BufReadOnly = 3  // read-only page, ends right before an inaccessible page
	BufUnalign  = 4  // N = misalignment 0..63, canaries on both sides
	BufSpareCap = 5  // capacity larger than length, canary in the spare part
	BufNil      = 6  // nil slice (only with Len 0)
	BufShared   = 7  // the driver's own blob, shared by concurrent lanes, never written
	BufStack    = 8  // N = extra call depth in odd-sized frames
	BufString   = 9  // handed over by io.WriteString
	BufCopy     = 10 // handed over by io.Copy from a plain reader that gives up to N+1 bytes at a time
)

// Prefix modes for Sum.
const (
	PreNil      = 0
	PreTight    = 1 // 7 bytes, no spare capacity
	PreRoomy    = 2 // 5 bytes, 60 spare bytes holding canaries
	PreEmpty    = 3 // empty non-nil slice with exactly 20 bytes of room
	PreShort    = 4 // 3 bytes with 10 spare bytes (too little room)
	PreGuard    = 5 // 4 bytes with exactly 20 spare bytes before an inaccessible page
	PreReadOnly = 6 // read-only prefix with no spare capacity: must be copied
	NumPre      = 7
	PreGen      = 16      // and above: PreGen + length + 128*spare capacity
	PreLong     = 1 << 20 // and above: PreLong + length, spare capacity length mod 41 squared, over 4
)

type Op struct {
	Code       int
	S, K, M    int
	N          uint64
	Blob       int
	Off, Len   int
	Lanes      [][]Op
	LaneShared bool // unused on the wire
}

// Case flags.
const (
	FlagInject    = 1 // uses OpInject: only meaningful where the table can be replaced
	FlagCgo       = 2 // uses kind KCgo
	FlagMarshal   = 4
	FlagBig       = 8  // needs a 64-bit address space
	FlagSlow      = 16 // not for emulated configurations
	FlagCgoInject = 32 // a KCgo hash under injection
	FlagNoCgoMar  = 64
)

type Case struct {
	Family string
	Note   string
	Flags  int
	Ops    []Op
}

type Blob struct {
	Lit  []byte
	Seed uint64 // pseudo random contents when Lit is nil
	N    int
}

func (b *Blob) Bytes() []byte {
	if b.Lit == nil {
		b.Lit = Rand(b.Seed, b.N)
	}
	return b.Lit
}

type Workload struct {
	Probes [][]byte // per reference DV: message block satisfying its bit conditions
	DVs    [][3]int // type, K, b in reference order
	Blobs  []Blob
	Cases  []Case
}

// Rand expands a seed to n bytes (splitmix64).
func Rand(seed uint64, n int) []byte {
	b := make([]byte, (n+7)&^7)
	s := seed
	for i := 0; i < len(b); i += 8 {
		s += 0x9e3779b97f4a7c15
		z := s
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		binary.LittleEndian.PutUint64(b[i:], z)
	}
	return b[:n:n]
}

type enc struct{ b []byte }

func (e *enc) u(v uint64)     { e.b = binary.AppendUvarint(e.b, v) }
func (e *enc) bytes(v []byte) { e.u(uint64(len(v))); e.b = append(e.b, v...) }
func (e *enc) op(o *Op) {
	e.b = append(e.b, byte(o.Code))
	e.u(uint64(o.S))
	e.u(uint64(o.K))
	e.u(uint64(o.M))
	e.u(o.N)
	e.u(uint64(o.Blob))
	e.u(uint64(o.Off))
	e.u(uint64(o.Len))
	if o.Code == OpPar {
		e.u(uint64(len(o.Lanes)))
		for _, l := range o.Lanes {
			e.u(uint64(len(l)))
			for i := range l {
				e.op(&l[i])
			}
		}
	}
}

const magic = "VWL2"

func (w *Workload) Encode() []byte {
	e := &enc{b: []byte(magic)}
	e.u(uint64(len(w.DVs)))
	for i, d := range w.DVs {
		e.u(uint64(d[0]))
		e.u(uint64(d[1]))
		e.u(uint64(d[2]))
		e.bytes(w.Probes[i])
	}
	e.u(uint64(len(w.Blobs)))
	for i := range w.Blobs {
		b := &w.Blobs[i]
		if b.N > 0 {
			e.u(1)
			e.u(b.Seed)
			e.u(uint64(b.N))
		} else {
			e.u(0)
			e.bytes(b.Lit)
		}
	}
	e.u(uint64(len(w.Cases)))
	for i := range w.Cases {
		c := &w.Cases[i]
		e.bytes([]byte(c.Family))
		e.bytes([]byte(c.Note))
		e.u(uint64(c.Flags))
		e.u(uint64(len(c.Ops)))
		for j := range c.Ops {
			e.op(&c.Ops[j])
		}
	}
	return e.b
}

type dec struct {
	b   []byte
	bad bool
}

func (d *dec) u() uint64 {
	v, n := binary.Uvarint(d.b)
	if n <= 0 {
		d.bad = true
		d.b = nil
		return 0
	}
	d.b = d.b[n:]
	return v
}
func (d *dec) i() int { return int(d.u()) }
func (d *dec) bytes() []byte {
	n := d.i()
	if n < 0 || n > len(d.b) {
		d.bad = true
		return nil
	}
	v := d.b[:n:n]
	d.b = d.b[n:]
	return v
}
func (d *dec) op(o *Op) {
	if len(d.b) == 0 {
		d.bad = true
		return
	}
	o.Code = int(d.b[0])
	d.b = d.b[1:]
	o.S, o.K, o.M = d.i(), d.i(), d.i()
	o.N = d.u()
	o.Blob, o.Off, o.Len = d.i(), d.i(), d.i()
	if o.Code == OpPar {
		o.Lanes = make([][]Op, d.i())
		for i := range o.Lanes {
			o.Lanes[i] = make([]Op, d.i())
			for j := range o.Lanes[i] {
				d.op(&o.Lanes[i][j])
			}
		}
	}
}

func Decode(b []byte) (*Workload, error) {
	if len(b) < 4 || string(b[:4]) != magic {
		return nil, errors.New("bad workload magic")
	}
	d := &dec{b: b[4:]}
	w := &Workload{}
	n := d.i()
	for i := 0; i < n && !d.bad; i++ {
		w.DVs = append(w.DVs, [3]int{d.i(), d.i(), d.i()})
		w.Probes = append(w.Probes, d.bytes())
	}
	n = d.i()
	for i := 0; i < n && !d.bad; i++ {
		if d.u() == 1 {
			w.Blobs = append(w.Blobs, Blob{Seed: d.u(), N: d.i()})
		} else {
			w.Blobs = append(w.Blobs, Blob{Lit: d.bytes()})
		}
	}
	n = d.i()
	for i := 0; i < n && !d.bad; i++ {
		var c Case
		c.Family = string(d.bytes())
		c.Note = string(d.bytes())
		c.Flags = d.i()
		c.Ops = make([]Op, d.i())
		for j := range c.Ops {
			d.op(&c.Ops[j])
		}
		w.Cases = append(w.Cases, c)
	}
	if d.bad {
		return nil, errors.New("truncated workload")
	}
	return w, nil
}

// PreSize gives the length of the prefix of a mode.
func PreSize(mode int) int {
	if mode >= PreLong {
		return mode - PreLong
	}
	if mode >= PreGen {
		return (mode - PreGen) & 127
	}
	return [NumPre]int{0, 7, 5, 0, 3, 4, 11}[mode]
}

// PreSpare gives the spare capacity behind the prefix of a mode from PreGen on.
func PreSpare(mode int) int {
	if mode >= PreLong {
		n := (mode - PreLong) % 41
		return n * n / 4
	}
	return (mode - PreGen) >> 7
}

// Data returns the bytes op o refers to.
func (w *Workload) Data(o *Op) []byte {
	if o.Len == 0 {
		return nil
	}
	b := w.Blobs[o.Blob].Bytes()
	return b[o.Off : o.Off+o.Len : o.Off+o.Len]
}

// Event records: one per op, compared byte for byte with the model's record.

func RecNew(k int, crh, mar, unm bool) []byte {
	if k == KCgo {
		mar, unm = true, true // not part of that package's contract
	}
	return []byte{'N', bb(crh), bb(mar), bb(unm)}
}
func RecWrite(n int, err bool, intact bool) []byte {
	b := []byte{'W', bb(err), bb(intact)}
	return binary.AppendUvarint(b, uint64(n))
}
func RecSum(out []byte, prefixOK, tailOK bool) []byte {
	return append([]byte{'S', bb(prefixOK), bb(tailOK)}, out...)
}
func RecCRS(out []byte, flag, prefixOK, tailOK bool) []byte {
	return append([]byte{'C', bb(flag), bb(prefixOK), bb(tailOK)}, out...)
}
func RecReset() []byte { return []byte{'R'} }
func RecMarshal(out []byte, err, stable bool) []byte {
	return append([]byte{'M', bb(err), bb(stable)}, out...)
}
func RecUnmarshal(err, intact bool) []byte { return []byte{'U', bb(err), bb(intact)} }
func RecSize(s, b int) []byte {
	r := binary.AppendUvarint([]byte{'Z'}, uint64(s))
	return binary.AppendUvarint(r, uint64(b))
}
func RecSumFn(out []byte, flag, intact bool) []byte {
	return append([]byte{'F', bb(flag), bb(intact)}, out...)
}
func RecMask(m uint32, intact bool) []byte {
	return binary.BigEndian.AppendUint32([]byte{'K', bb(intact)}, m)
}
func RecInject(ok bool) []byte { return []byte{'I', bb(ok)} }
func RecSumTo(n int, err bool, flag bool) []byte {
	return binary.AppendUvarint([]byte{'T', bb(err), bb(flag)}, uint64(n))
}
func RecRetained(i int, want, got []byte) []byte {
	return []byte(fmt.Sprintf("@result %d held by the caller changed from %x to %x", i, want, got))
}
func RecVoid(c byte) []byte        { return []byte{c} }
func RecPanic(msg string) []byte   { return append([]byte{'!'}, msg...) }
func RecSkipped(why string) []byte { return append([]byte{'?'}, why...) }

func bb(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// Describe renders a record for humans.
func Describe(r []byte) string {
	if len(r) == 0 {
		return "(nothing)"
	}
	f := func(i int) bool { return len(r) > i && r[i] == 1 }
	t := func(i int) []byte {
		if len(r) > i {
			return r[i:]
		}
		return nil
	}
	switch r[0] {
	case 'N':
		return fmt.Sprintf("New: CollisionResistantHash=%v BinaryMarshaler=%v BinaryUnmarshaler=%v", f(1), f(2), f(3))
	case 'W':
		n, _ := binary.Uvarint(t(3))
		return fmt.Sprintf("Write: n=%d err=%v callerBufferIntact=%v", n, f(1), f(2))
	case 'S':
		return fmt.Sprintf("Sum: %x prefixIntact=%v spareIntact=%v", t(3), f(1), f(2))
	case 'C':
		return fmt.Sprintf("CollisionResistantSum: %x collision=%v prefixIntact=%v spareIntact=%v", t(4), f(1), f(2), f(3))
	case 'M':
		return fmt.Sprintf("MarshalBinary: %x err=%v repeatable=%v", t(3), f(1), f(2))
	case 'U':
		return fmt.Sprintf("UnmarshalBinary: err=%v inputIntact=%v", f(1), f(2))
	case 'F':
		return fmt.Sprintf("Sum(data): %x collision=%v callerBufferIntact=%v", t(3), f(1), f(2))
	case 'K':
		return fmt.Sprintf("CalculateDvMask: %x inputIntact=%v", t(2), f(1))
	case 'Z':
		s, n := binary.Uvarint(t(1))
		b, _ := binary.Uvarint(t(1 + n))
		return fmt.Sprintf("Size=%d BlockSize=%d", s, b)
	case 'T':
		n, _ := binary.Uvarint(t(3))
		return fmt.Sprintf("write sum into hash: n=%d err=%v collision=%v", n, f(1), f(2))
	case '!':
		return "PANIC: " + string(r[1:])
	case '@':
		return string(r[1:])
	case '?':
		return "skipped: " + string(r[1:])
	}
	return fmt.Sprintf("%c %x", r[0], r[1:])
}

func (o *Op) String() string {
	k := "sha1cd"
	if o.K == KCgo {
		k = "cgo"
	}
	d := fmt.Sprintf("blob %d[%d:+%d]", o.Blob, o.Off, o.Len)
	switch o.Code {
	case OpNew:
		return fmt.Sprintf("h%d = %s.New()", o.S, k)
	case OpWrite:
		return fmt.Sprintf("h%d.Write(%s) bufmode=%d/%d", o.S, d, o.M, o.N)
	case OpSum:
		return fmt.Sprintf("h%d.Sum(prefix mode %d)", o.S, o.M)
	case OpCRS:
		return fmt.Sprintf("h%d.CollisionResistantSum(prefix mode %d)", o.S, o.M)
	case OpReset:
		return fmt.Sprintf("h%d.Reset()", o.S)
	case OpMarshal:
		return fmt.Sprintf("h%d.MarshalBinary()", o.S)
	case OpUnmarshal:
		return fmt.Sprintf("h%d.UnmarshalBinary(%s)", o.S, d)
	case OpSize:
		return fmt.Sprintf("h%d.Size/BlockSize", o.S)
	case OpSumFn:
		return fmt.Sprintf("%s.Sum(%s) bufmode=%d/%d", k, d, o.M, o.N)
	case OpMask:
		return fmt.Sprintf("CalculateDvMask[%s](%s) nil=%v", k, d, o.M == 1)
	case OpInject:
		return fmt.Sprintf("replace message difference of DV #%d by %s", o.N, d)
	case OpBigZero:
		return fmt.Sprintf("h%d.Write(%d zero bytes)", o.S, o.N)
	case OpPar:
		s := fmt.Sprintf("%d concurrent lanes", len(o.Lanes))
		return s
	case OpGC:
		return "GC"
	case OpRestore:
		return "restore table"
	case OpConsts:
		return k + " Size/BlockSize constants"
	case OpSumTo:
		return fmt.Sprintf("h%d.Write(h%d.Sum(nil))", o.N, o.S)
	}
	return fmt.Sprintf("op %d", o.Code)
}
