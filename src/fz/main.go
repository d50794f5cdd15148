// Command fz is a coverage-guided workload: libFuzzer proposes histories of API
// calls (the code under test is built with coverage and comparison
// instrumentation, the model is not), and every result is compared with the
// reference model on the spot.
package main

/*
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>
#include <sys/mman.h>

typedef struct { int dvType, dvK, dvB, testt, maski, maskb; uint32_t dm[80]; } vmon_dv;
extern vmon_dv sha1_dvs[] __attribute__((weak));
static vmon_dv *tab(void) { return sha1_dvs; }
static int rw(void *a, size_t n) {
	uintptr_t p = (uintptr_t)a, e = p + n, pg = (uintptr_t)sysconf(_SC_PAGESIZE);
	p &= ~(pg - 1);
	return mprotect((void *)p, e - p, PROT_READ | PROT_WRITE | PROT_EXEC);
}
static void quit(int c) { _exit(c); }
*/
import "C"

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"fmt"
	"hash"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"unsafe"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"vmon/gen"
	"vmon/ref"
	"vmon/wl"
)

type crh interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

const (
	maxBig   = 1300000 // largest single write
	budgetB  = 1400000 // bytes hashed per input
	arenaLen = 3 << 20
	statLen  = 1 << 20
)

var (
	feat    = map[string]bool{}
	attacks [][]byte
	pool    [][]byte // blocks satisfying the bit conditions of some vector
	noise   []byte
	arena   []byte // followed by an inaccessible page
	stat    []byte // shared with check.py: counters and the current input
	goT, cT *ref.Table
	goLive  bool
	cLive   bool
	goOrig  []ubc.DvInfo
	cOrig   []C.vmon_dv
	cur     int
	std     *ref.Table
	ready   bool
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "fz: "+f+"\n", a...)
	C.quit(3)
}

func cTab() []C.vmon_dv {
	p := C.tab()
	if p == nil {
		return nil
	}
	return unsafe.Slice(p, 65)
}

//export LLVMFuzzerInitialize
func LLVMFuzzerInitialize(argc *C.int, argv ***C.char) C.int {
	if ready {
		return 0
	}
	ready = true
	for _, f := range strings.Split(os.Getenv("FZ_FEAT"), ",") {
		feat[f] = true
	}
	for _, f := range []string{"shattered-1.bin", "shattered-2.bin", "sha-mbles-1.bin", "sha-mbles-2.bin"} {
		b, err := os.ReadFile(filepath.Join(os.Getenv("FZ_DATA"), f))
		if err != nil {
			die("%v", err)
		}
		attacks = append(attacks, b)
	}
	noise = wl.Rand(99, 4<<20)
	r := rand.New(rand.NewPCG(7, 7))
	for dv := range ref.DVs {
		for i := 0; i < 4; i++ {
			if b := gen.PassBlock(r, dv); b != nil {
				pool = append(pool, b)
			}
		}
	}
	m, err := syscall.Mmap(-1, 0, arenaLen+65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		die("mmap %v", err)
	}
	if err := syscall.Mprotect(m[arenaLen:], syscall.PROT_NONE); err != nil {
		die("mprotect %v", err)
	}
	arena = m[:arenaLen:arenaLen]
	if f := os.Getenv("FZ_STAT"); f != "" {
		fd, err := os.OpenFile(f, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			die("%v", err)
		}
		fd.Truncate(statLen)
		stat, err = syscall.Mmap(int(fd.Fd()), 0, statLen, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			die("%v", err)
		}
		fd.Close()
	} else {
		stat = make([]byte, statLen)
	}
	tables()
	return 0
}

// tables reads both tables and finds out whether injected differences take effect.
func tables() {
	goT, cT, std = ref.StdTable(), ref.StdTable(), ref.StdTable()
	set := func(t *ref.Table, ty, k, b, tt, bit int) {
		for r := range ref.DVs {
			d := &ref.DVs[r]
			if d.Type == ty && d.K == k && d.B == b && tt >= 0 && tt < 80 && d.Window[tt] && d.Bit == bit {
				t.TestT[r] = tt
			}
		}
	}
	for _, d := range ubc.SHA1_dvs() {
		goOrig = append(goOrig, d)
		if d.DvType == 0 {
			break
		}
		set(goT, int(d.DvType), int(d.DvK), int(d.DvB), int(d.TestT), int(d.MaskB))
	}
	for _, d := range cTab() {
		if d.dvType == 0 {
			break
		}
		if d.dvType < 0 || d.dvType > 2 || d.maskb < 0 || d.maskb > 31 {
			cOrig = nil
			break
		}
		cOrig = append(cOrig, d)
		set(cT, int(d.dvType), int(d.dvK), int(d.dvB), int(d.testt), int(d.maskb))
	}
	if len(cOrig) > 0 && C.rw(unsafe.Pointer(C.tab()), C.size_t(65*unsafe.Sizeof(cOrig[0]))) != 0 {
		cOrig = nil
	}
	// probe: with all differences zero, every vector's own block is flagged
	goLive, cLive = true, len(cOrig) > 0
	g, c := goLive, cLive
	inject(1)
	for _, b := range pool {
		for k := 0; k < 2; k++ {
			h := mk(k)
			h.Write(b)
			ch, ok := h.(crh)
			v := false
			if ok {
				_, v = ch.CollisionResistantSum(nil)
			}
			if !v && k == 0 {
				g = false
			}
			if !v && k == 1 {
				c = false
			}
		}
	}
	inject(0)
	goLive, cLive = g, c
}

func mk(k int) hash.Hash {
	if k == 1 {
		return cgo.New()
	}
	return sha1cd.New()
}

// inject: 0 the tables as they are; 1 no differences at all; 2+i none for vector i.
func inject(mode int) {
	if mode == cur {
		return
	}
	cur = mode
	var zero [80]uint32
	var zc [80]C.uint32_t
	hit := func(ty, k, b int) bool {
		if mode < 2 {
			return mode == 1
		}
		d := &ref.DVs[(mode-2)%32]
		return d.Type == ty && d.K == k && d.B == b
	}
	for r := range ref.DVs {
		d := &ref.DVs[r]
		goT.Dm[r], cT.Dm[r] = std.Dm[r], std.Dm[r]
		if hit(d.Type, d.K, d.B) {
			if goLive {
				goT.Dm[r] = zero
			}
			if cLive {
				cT.Dm[r] = zero
			}
		}
	}
	t := ubc.SHA1_dvs()
	for i := range goOrig {
		if i < len(t) && goLive {
			t[i].Dm = goOrig[i].Dm
			if hit(int(goOrig[i].DvType), int(goOrig[i].DvK), int(goOrig[i].DvB)) {
				t[i].Dm = zero
			}
		}
	}
	if cLive {
		ct := cTab()
		for i := range cOrig {
			ct[i].dm = cOrig[i].dm
			if hit(int(cOrig[i].dvType), int(cOrig[i].dvK), int(cOrig[i].dvB)) {
				ct[i].dm = zc
			}
		}
	}
}

// counters in the shared file
const (
	cExecs = iota
	cEvents
	cDigests
	cFlagged
	cBlocks
	cDetected
	cStates
	cRejected
	cMasks
	cInjGo
	cInjC
)

func count(i int, n uint64) {
	p := stat[8*i:]
	binary.LittleEndian.PutUint64(p, binary.LittleEndian.Uint64(p)+n)
}

type in struct {
	b []byte
}

func (i *in) u1() int {
	if len(i.b) == 0 {
		return 0
	}
	v := i.b[0]
	i.b = i.b[1:]
	return int(v)
}

func (i *in) u8() uint64 {
	var t [8]byte
	n := copy(t[:], i.b)
	i.b = i.b[n:]
	return binary.LittleEndian.Uint64(t[:])
}

func (i *in) take(n int) []byte {
	if n > len(i.b) {
		n = len(i.b)
	}
	v := i.b[:n]
	i.b = i.b[n:]
	return v
}

type slot struct {
	k int
	h hash.Hash
	m *ref.Digest
}

type finding string

func bad(f string, a ...any) { panic(finding(fmt.Sprintf(f, a...))) }

type run struct {
	in
	slots  [4]slot
	left   int
	states [2][]byte
	log    []string
	trace  bool
	op     string
	kept   [][2][]byte
}

func (r *run) note(f string, a ...any) {
	if r.trace {
		fmt.Fprintf(os.Stderr, "  "+f+"\n", a...)
	}
}

func (r *run) kind() int {
	v := r.u1()
	switch {
	case feat["go"] && !feat["cgo"]:
		return 0
	case feat["cgo"] && !feat["go"]:
		return 1
	}
	return v & 1
}

func table(k int) *ref.Table {
	if k == 1 {
		return cT
	}
	return goT
}

func (r *run) slot() *slot {
	s := &r.slots[r.u1()&3]
	if s.h == nil {
		s.k = 0
		if feat["cgo"] && !feat["go"] {
			s.k = 1
		}
		s.h, s.m = mk(s.k), ref.New(table(s.k))
	}
	return s
}

// data: the next piece of message.
func (r *run) data(at uint64) []byte {
	src := r.u1() & 7
	a := r.u1()
	n8 := r.u8()
	n := int(n8)
	if n8 > maxBig {
		n = int(n8 % 700)
	}
	if n > r.left {
		n = r.left
	}
	var out []byte
	switch src {
	case 0:
		out = r.take(n)
	case 2:
		out = make([]byte, n)
	case 6:
		out = bytes.Repeat([]byte{byte(a)}, n)
	case 3, 7:
		if !feat["pass"] {
			out = noise[a : a+n]
			break
		}
		n = min(n, 20000)
		out = make([]byte, 0, n+64)
		for i := 0; len(out) < n; i++ {
			if src == 7 && i%3 != 2 {
				out = append(out, noise[64*i+a:64*i+a+64]...)
			} else {
				out = append(out, pool[(a+i)%len(pool)]...)
			}
		}
		out = out[:n]
	case 4, 5:
		if !feat["att"] {
			out = noise[a<<8 : a<<8+n]
			break
		}
		f := attacks[a%len(attacks)]
		if src == 5 && at < uint64(len(f)) {
			f = f[at:]
		}
		out = f[:min(n, len(f))]
	default:
		o := a * 61
		out = noise[o : o+n]
	}
	r.left -= len(out)
	return out
}

func (r *run) place(d []byte, off int) []byte {
	o := len(arena) - len(d)
	if off&1 != 0 {
		o -= off >> 1 & 63
	}
	p := arena[o : o+len(d) : o+len(d)]
	copy(p, d)
	return p
}

func wipe(p []byte) {
	for i := range p {
		if i >= 4096 {
			break
		}
		p[i] = 0xEE
	}
}

func (r *run) write(s *slot, d []byte, off int) {
	p := r.place(d, off)
	n, err := s.h.Write(p)
	if n != len(d) || err != nil {
		bad("Write of %d bytes returned %d, %v", len(d), n, err)
	}
	if !bytes.Equal(p, d) {
		bad("Write changed its argument")
	}
	wipe(p)
	s.m.Write(d)
	count(cEvents, 1)
}

func (r *run) prefix() []byte {
	n := r.u1()
	switch n & 3 {
	case 0:
		return nil
	case 1:
		return make([]byte, n>>2)
	case 2:
		p := make([]byte, n>>2, n>>2+40)
		copy(p, noise)
		return p
	}
	p := make([]byte, n>>2, n>>2+n%23)
	copy(p, noise[5:])
	return p
}

func (r *run) sum(s *slot, crs bool) {
	pre := r.prefix()
	cp := append([]byte(nil), pre...)
	var got []byte
	var flag bool
	want, wf := s.m.Sum()
	if crs {
		c, ok := s.h.(crh)
		if !ok {
			bad("no CollisionResistantSum")
		}
		got, flag = c.CollisionResistantSum(pre)
	} else {
		got, flag = s.h.Sum(pre), wf
	}
	count(cEvents, 1)
	count(cDigests, 1)
	if wf {
		count(cFlagged, 1)
	}
	if !bytes.Equal(pre, cp) {
		bad("%s changed the prefix", r.op)
	}
	want = append(cp, want...)
	if !bytes.Equal(got, want) || flag != wf {
		bad("%s of kind %d after %d bytes: %x flagged %v, expected %x flagged %v", r.op, s.k, s.m.Len, got, flag, want, wf)
	}
	if len(r.kept) < 40 {
		r.kept = append(r.kept, [2][]byte{got, want})
	}
}

func (r *run) load(s *slot, st []byte) {
	u, ok := s.h.(encoding.BinaryUnmarshaler)
	if !ok {
		if s.k == 0 {
			bad("no UnmarshalBinary")
		}
		return
	}
	p := r.place(st, r.u1())
	err := u.UnmarshalBinary(p)
	if !bytes.Equal(p, st) {
		bad("UnmarshalBinary changed its argument")
	}
	wipe(p)
	good := s.m.Unmarshal(st)
	if good != (err == nil) {
		bad("UnmarshalBinary of %x (%d bytes): error %v, expected accepted=%v", st, len(st), err, good)
	}
	if !good {
		count(cRejected, 1)
	}
	count(cEvents, 1)
}

func (r *run) save(s *slot) []byte {
	m, ok := s.h.(encoding.BinaryMarshaler)
	if !ok {
		if s.k == 0 {
			bad("no MarshalBinary")
		}
		return nil
	}
	b, err := m.MarshalBinary()
	want := s.m.Marshal()
	if err != nil || !bytes.Equal(b, want) {
		bad("MarshalBinary after %d bytes: %x %v, expected %x", s.m.Len, b, err, want)
	}
	count(cEvents, 1)
	count(cStates, 1)
	if len(r.kept) < 40 {
		r.kept = append(r.kept, [2][]byte{b, want})
	}
	return want
}

func (r *run) mask() {
	k := r.kind()
	a := r.u1()
	var w [80]uint32
	switch a & 3 {
	case 0:
		var b [64]byte
		copy(b[:], r.take(64))
		w = ref.Expand(b[:])
	case 1:
		b := append([]byte(nil), pool[r.u1()%len(pool)]...)
		for i := 0; i < a>>2&7; i++ {
			b[r.u1()%64] ^= 1 << (r.u1() & 7)
		}
		w = ref.Expand(b)
	case 2:
		w = ref.Expand(pool[r.u1()%len(pool)])
		for i := 0; i < a>>2&7; i++ {
			w[r.u1()%80] ^= 1 << (r.u1() & 31)
		}
	case 3:
		p := r.take(320)
		for i := 0; i+4 <= len(p); i += 4 {
			w[i/4] = binary.LittleEndian.Uint32(p[i:])
		}
	}
	want := ref.Mask(&w)
	in := w
	var got uint32
	if k == 1 {
		got = cgo.CalculateDvMask(w)
	} else {
		got = ubc.CalculateDvMask(&in)
	}
	if got != want || in != w {
		bad("CalculateDvMask (kind %d) of %08x: %08x, expected %08x", k, w, got, want)
	}
	count(cEvents, 1)
	count(cMasks, 1)
}

func (r *run) do() {
	r.left = budgetB
	mode := r.u1()
	if feat["inj"] && mode&3 != 0 {
		m := 1
		if mode&3 == 3 {
			m = 2 + mode>>2&31
		}
		inject(m)
		if goLive {
			count(cInjGo, 1)
		}
		if cLive {
			count(cInjC, 1)
		}
	} else {
		inject(0)
	}
	for n := 0; len(r.b) > 0 && n < 200; n++ {
		o := r.u1() & 15
		if feat["maskonly"] {
			o = 13
		}
		switch o {
		case 0:
			i := r.u1() & 3
			k := r.kind()
			r.op = "New"
			r.slots[i] = slot{k, mk(k), ref.New(table(k))}
			r.note("%d: slot %d = New kind %d", n, i, k)
		case 1, 2:
			s := r.slot()
			r.op = "Write"
			off := r.u1()
			d := r.data(s.m.Len)
			r.note("%d: Write kind %d, %d bytes at %d", n, s.k, len(d), s.m.Len)
			r.write(s, d, off)
		case 3: // in pieces
			s := r.slot()
			r.op = "Write"
			step := 1 + r.u1()
			off := r.u1()
			d := r.data(s.m.Len)
			if len(d) > 8192 {
				step *= 100
			}
			r.note("%d: Write kind %d, %d bytes in pieces of %d at %d", n, s.k, len(d), step, s.m.Len)
			for len(d) > 0 {
				k := min(step, len(d))
				r.write(s, d[:k], off)
				d = d[k:]
			}
		case 4, 5:
			s := r.slot()
			r.op = []string{"Sum", "CollisionResistantSum"}[o-4]
			r.note("%d: %s kind %d at %d", n, r.op, s.k, s.m.Len)
			r.sum(s, o == 5)
		case 6:
			if !feat["reset"] {
				continue
			}
			s := r.slot()
			r.op = "Reset"
			r.note("%d: Reset kind %d", n, s.k)
			s.h.Reset()
			s.m.Reset()
		case 7:
			if !feat["marsh"] {
				continue
			}
			s := r.slot()
			r.op = "MarshalBinary"
			r.note("%d: MarshalBinary kind %d at %d", n, s.k, s.m.Len)
			if b := r.save(s); b != nil {
				r.states[r.u1()&1] = b
			}
		case 8:
			if !feat["marsh"] {
				continue
			}
			s := r.slot()
			if b := r.states[r.u1()&1]; b != nil {
				r.op = "UnmarshalBinary"
				r.note("%d: UnmarshalBinary kind %d of a saved state", n, s.k)
				r.load(s, b)
			}
		case 9: // a made-up state
			if !feat["marsh"] {
				continue
			}
			s := r.slot()
			f := r.u1()
			l := r.u8()
			h := ref.IV
			if f&2 != 0 {
				p := r.take(20)
				for i := 0; i+4 <= len(p); i += 4 {
					h[i/4] = binary.BigEndian.Uint32(p[i:])
				}
			}
			if l>>61 != 0 && f&4 == 0 {
				l &= 1<<61 - 1
			}
			var buf [64]byte
			rem := int(l % 64)
			if f&8 != 0 {
				rem = 64 // whatever follows the buffered bytes means nothing
			}
			copy(buf[:rem], noise[f*7:])
			if f&16 != 0 {
				copy(buf[:rem], pool[f%len(pool)])
			}
			magic := "shacd\x01"
			if f&1 != 0 {
				magic = "shacd\x02"
			}
			r.op = "UnmarshalBinary"
			st := ref.State(magic, h, buf[:], l)
			r.note("%d: UnmarshalBinary kind %d of %x", n, s.k, st)
			r.load(s, st)
		case 10: // malformed
			if !feat["bad"] {
				continue
			}
			s := r.slot()
			f := r.u1()
			st := append([]byte(nil), r.states[f&1]...)
			if st == nil {
				st = ref.State("shacd\x01", ref.IV, make([]byte, 64), r.u8())
			}
			switch f >> 1 & 3 {
			case 0:
				st = st[:min(len(st), r.u1())]
			case 1:
				st = append(st, r.take(r.u1()&31)...)
			case 2:
				for i := 0; i < 1+f>>3&3; i++ {
					if len(st) > 0 {
						st[r.u1()%len(st)] ^= byte(r.u1())
					}
				}
			case 3:
				st = append([]byte(nil), r.take(r.u1())...)
			}
			r.op = "UnmarshalBinary"
			r.note("%d: UnmarshalBinary kind %d of %x", n, s.k, st)
			r.load(s, st)
		case 11, 12:
			k := r.kind()
			off := r.u1()
			d := r.data(0)
			r.op = "Sum function"
			r.note("%d: Sum function kind %d of %d bytes", n, k, len(d))
			p := r.place(d, off)
			var got []byte
			var c bool
			if k == 1 {
				got, c = cgo.Sum(p)
			} else {
				g, gc := sha1cd.Sum(p)
				got, c = g[:], gc
			}
			if !bytes.Equal(p, d) {
				bad("Sum changed its argument")
			}
			wipe(p)
			m := ref.New(table(k))
			m.Write(d)
			want, wc := m.Sum()
			if !bytes.Equal(got, want) || c != wc {
				bad("Sum function kind %d of %d bytes: %x %v, expected %x %v", k, len(d), got, c, want, wc)
			}
			count(cEvents, 1)
			count(cDigests, 1)
			count(cBlocks, m.Blocks)
			count(cDetected, m.Detected)
		case 13:
			if !feat["mask"] {
				continue
			}
			r.op = "CalculateDvMask"
			r.note("%d: CalculateDvMask", n)
			r.mask()
		case 14:
			s := r.slot()
			if s.h.Size() != 20 || s.h.BlockSize() != 64 {
				bad("Size %d BlockSize %d", s.h.Size(), s.h.BlockSize())
			}
			count(cEvents, 1)
		}
	}
	// every history ends with looking at everything
	r.op = "final CollisionResistantSum"
	for i := range r.slots {
		s := &r.slots[i]
		if s.h == nil {
			continue
		}
		r.b = nil
		r.sum(s, true)
		if s.k == 0 && feat["marsh"] {
			r.save(s)
		}
		count(cBlocks, s.m.Blocks)
		count(cDetected, s.m.Detected)
	}
	for _, k := range r.kept {
		if !bytes.Equal(k[0], k[1]) {
			bad("a result given away earlier changed: %x, was %x", k[0], k[1])
		}
	}
}

//export LLVMFuzzerTestOneInput
func LLVMFuzzerTestOneInput(p *C.uint8_t, n C.size_t) C.int {
	b := unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
	if n == 0 {
		b = nil
	}
	// The model never sees the fuzzer's own memory: Go pointers only.
	b = append([]byte(nil), b...)
	binary.LittleEndian.PutUint64(stat[1024:], uint64(copy(stat[1032:], b)))
	count(cExecs, 1)
	debug.SetPanicOnFault(true)
	r := &run{in: in{b}, trace: os.Getenv("FZ_TRACE") != ""}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(finding); ok {
				fmt.Fprintf(os.Stderr, "FINDING mismatch: %s\n", string(f))
			} else {
				fmt.Fprintf(os.Stderr, "FINDING panic in %s: %v\n%s\n", r.op, e, debug.Stack())
			}
			C.quit(77)
		}
	}()
	r.do()
	return 0
}

func main() {}
