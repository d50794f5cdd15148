// Command asmg calls the assembly block function directly, every argument in
// memory of its own between inaccessible pages and canaries: whatever it reads
// or writes beyond them shows. It is built with an overlay that exports the
// function, and only when that function has the expected signature.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"
	"syscall"
	"unsafe"

	"github.com/pjbgf/sha1cd"
)

const gran = 65536

type area struct{ m []byte }

func newArea() *area {
	m, err := syscall.Mmap(-1, 0, 3*gran, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err == nil {
		err = syscall.Mprotect(m[:gran], 0)
	}
	if err == nil {
		err = syscall.Mprotect(m[2*gran:], 0)
	}
	if err != nil {
		fmt.Println("mmap:", err)
		os.Exit(3)
	}
	return &area{m}
}

// place gives n bytes at the end or the beginning of the accessible part, the
// rest of which holds canaries.
func (a *area) place(n int, atEnd bool) []byte {
	d := a.m[gran : 2*gran]
	for i := range d {
		d[i] = 0xC7 ^ byte(i)
	}
	if atEnd {
		return d[gran-n:]
	}
	return d[:n:n]
}

func (a *area) intact(n int, atEnd bool) bool {
	d := a.m[gran : 2*gran]
	for i := range d {
		in := i < n
		if atEnd {
			in = i >= gran-n
		}
		if !in && d[i] != 0xC7^byte(i) {
			return false
		}
	}
	return true
}

func (a *area) ro(on bool) {
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if on {
		p = syscall.PROT_READ
	}
	if err := syscall.Mprotect(a.m[gran:2*gran], p); err != nil {
		fmt.Println("mprotect:", err)
		os.Exit(3)
	}
}

func words(b []byte, n int) []uint32 { return unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), n) }

func fill(b []byte) {
	for i := range b {
		b[i] = 0xC7
	}
}

var (
	patterns = []uint64{0, 1, 63, 64, ^uint64(0), ^uint64(62), ^uint64(63), ^uint64(64), 1 << 63, 1<<63 - 1, 1<<63 - 64, 1 << 31, 1<<32 - 1, 1<<32 - 64}
	regs     int
)

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	count, _ := strconv.Atoi(os.Args[2])
	r := rand.New(rand.NewPCG(seed, 77))
	ah, ap, am, ac := newArea(), newArea(), newArea(), newArea()
	bad := 0
	for i := 0; i < count; i++ {
		e := [4]bool{i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0}
		if i < 16 {
			e = [4]bool{true, true, true, true}
		}
		hb, p := ah.place(20, e[0]), ap.place(64, e[1])
		mb, cb := am.place(320, e[2]), ac.place(60, e[3])
		h := words(hb, 5)
		m1 := words(mb, 80)
		cs := unsafe.Slice((*[5]uint32)(unsafe.Pointer(&cb[0])), 3)
		var h0, h1 [5]uint32
		var p0 [64]byte
		for j := range h {
			h[j] = r.Uint32()
		}
		for j := range p {
			p[j] = byte(r.Uint32())
		}
		copy(h0[:], h)
		copy(p0[:], p)
		os.Stdout.WriteString("")
		ap.ro(true)
		sha1cd.VerifAsm(h, p, m1, cs)
		ap.ro(false)
		copy(h1[:], h)
		what := ""
		// The registers hold nothing it may rely on: whatever is in them, the
		// same arguments give the same results.
		snap := func() string { return string(hb) + string(mb) + string(cb) }
		first := snap()
		for k := 0; k < 3; k++ {
			x := patterns[r.IntN(len(patterns))]
			if r.IntN(4) == 0 {
				x = r.Uint64()
			}
			fill(mb)
			fill(cb)
			if k == 0 {
				copy(h, h0[:])
				sha1cd.VerifAsm(h, p, m1, cs)
				first = snap()
				fill(mb)
				fill(cb)
			}
			copy(h, h0[:])
			if !sha1cd.VerifRegs(h, p, m1, cs, x) {
				what = "did not restore the frame pointer"
			} else if snap() != first {
				what = fmt.Sprintf("gave another result with %x in all registers", x)
			}
			regs++
		}
		switch {
		case what != "":
		case string(p) != string(p0[:]):
			what = "changed the message"
		case !ah.intact(20, e[0]):
			what = "wrote outside the chaining value"
		case !ap.intact(64, e[1]):
			what = "wrote around the message"
		case !am.intact(320, e[2]):
			what = "wrote outside the expanded message"
		case !ac.intact(60, e[3]):
			what = "wrote outside the intermediate states"
		}
		if what != "" {
			bad++
			if bad < 5 {
				fmt.Printf("VMON call %d: the assembly %s\n", i, what)
			}
		}
		if h0 == h1 {
			fmt.Println("VMON-NOP")
			os.Exit(3)
		}
	}
	fmt.Printf("calls %d bad %d regs %d\n", count, bad, regs)
}
