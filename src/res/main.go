// Command res measures what hashing costs in memory, time and handles, in phases
// that differ only in how much is hashed. It prints measurements; check.py
// judges them.
package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"hash"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"vmon/gen"
	"vmon/ref"
)

type meas struct {
	Name  string
	Kind  string
	Value float64
	Limit float64
	Text  string
}

var out []meas

func report(name, kind string, v, limit float64, text string) {
	out = append(out, meas{name, kind, v, limit, text})
}

func fds() float64 {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return float64(len(e))
}

func maps() float64 {
	b, _ := os.ReadFile("/proc/self/maps")
	n := 0
	for _, c := range b {
		if c == '\n' {
			n++
		}
	}
	return float64(n)
}

func threads() float64 {
	e, _ := os.ReadDir("/proc/self/task")
	return float64(len(e))
}

type snap struct{ heap, objs, c, fds, gor, maps, thr float64 }

func take() snap {
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	debug.FreeOSMemory()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return snap{float64(m.HeapAlloc), float64(m.HeapObjects), cHeap(), fds(), float64(runtime.NumGoroutine()), maps(), threads()}
}

// base is take once nothing more is being cleaned up.
func base() snap {
	s := take()
	for i := 0; i < 10; i++ {
		t := take()
		done := t.objs > s.objs-100 && t.c > s.c-4096
		s = t
		if done {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	return s
}

// after is take, again for a while if over says that too much is left: cleanups
// run in the background, and may take long on a busy machine.
func after(over func(snap) bool) snap {
	s := take()
	t := time.Now()
	for i := 0; i < 9 && over(s) && patience > 0; i++ {
		time.Sleep(10 << i * time.Millisecond)
		s = take()
	}
	patience -= time.Since(t)
	return s
}

var patience = 20 * time.Second // in all

func cpu() float64 {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)*1e-6
}

type crh interface {
	hash.Hash
	CollisionResistantSum([]byte) ([]byte, bool)
}

var kinds = []struct {
	name string
	mk   func() hash.Hash
	sum  func([]byte) ([]byte, bool)
}{
	{"sha1cd", sha1cd.New, func(b []byte) ([]byte, bool) { d, c := sha1cd.Sum(b); return d[:], c }},
	{"cgo", cgo.New, cgo.Sum},
}

var (
	attacks [][]byte
	rng     *rand.Rand
	buf     = make([]byte, 1<<16)
	sink    byte
	calls   int
)

// work does one round of everything.
func work(k, n int) {
	mk, sum := kinds[k].mk, kinds[k].sum
	var tmp [64]byte
	for i := 0; i < n; i++ {
		h := mk()
		m := rng.IntN(400)
		if i%16 == 0 {
			m = rng.IntN(len(buf))
		}
		h.Write(buf[:m])
		h.Write(buf[m/2 : m])
		sink ^= h.Sum(tmp[:0])[0]
		if i%4 == 0 {
			h.Write(attacks[i/4%len(attacks)])
			d, _ := h.(crh).CollisionResistantSum(nil)
			sink ^= d[0]
			h.Reset()
			h.Write(attacks[i/4%len(attacks)])
			h.Write(buf[:m%70])
			d, _ = h.(crh).CollisionResistantSum(d)
			sink ^= d[1]
			d, _ = sum(attacks[i/4%len(attacks)])
			sink ^= d[2]
			calls += 6
		}
		d, _ := sum(buf[:m])
		sink ^= d[0]
		if ma, ok := h.(encoding.BinaryMarshaler); ok {
			if um, ok := h.(encoding.BinaryUnmarshaler); ok {
				b, _ := ma.MarshalBinary()
				um.UnmarshalBinary(b)
				um.UnmarshalBinary(b[:len(b)/2])
				if len(b) > 0 {
					b[0] ^= 1
				}
				um.UnmarshalBinary(b)
				calls += 4
			}
		}
		h.Reset()
		h.Write(nil)
		calls += 8
	}
}

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	scale, _ := strconv.Atoi(os.Args[2])
	rng = rand.New(rand.NewPCG(seed, 5))
	for i := range buf {
		buf[i] = byte(rng.Uint32())
	}
	for _, f := range []string{"shattered-1.bin", "shattered-2.bin", "sha-mbles-1.bin", "sha-mbles-2.bin"} {
		b, err := os.ReadFile(filepath.Join(os.Args[3], f))
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		attacks = append(attacks, b)
	}
	if len(os.Args) > 4 { // blocks that satisfy many bit conditions
		worst, _ = os.ReadFile(os.Args[4])
	}
	for k := range kinds {
		leaks(k, scale)
		flagged(k, scale)
		each(k, scale)
		held(k)
		perHash(k)
		big(k)
		linear(k)
		population(k)
	}
	js, _ := json.Marshal(map[string]any{"Meas": out, "Calls": calls, "Go": runtime.Version(), "Arch": runtime.GOARCH, "Cgo": haveC})
	fmt.Println("RESULT " + string(js))
}

// leaks: equal rounds of work must not each leave something behind.
func leaks(k, scale int) {
	n := 6000 * scale
	work(k, n)
	work(k, n)
	a := base()
	work(k, n)
	work(k, n)
	c := after(func(s snap) bool {
		return s.heap-a.heap > 128<<10 || s.objs-a.objs > 3000 || s.c-a.c > 128<<10 || s.fds-a.fds > 10 || s.gor-a.gor > 4 || s.maps-a.maps > 200 || s.thr-a.thr > 32
	})
	d := func(f func(snap) float64) float64 { return (f(c) - f(a)) / 2 }
	name := kinds[k].name
	report("heap-growth", name, d(func(s snap) float64 { return s.heap }), 64<<10, fmt.Sprintf("bytes of Go heap left behind by %d rounds", n))
	report("object-growth", name, d(func(s snap) float64 { return s.objs }), 1500, fmt.Sprintf("heap objects left behind by %d rounds", n))
	report("c-heap-growth", name, d(func(s snap) float64 { return s.c }), 64<<10, fmt.Sprintf("bytes of C heap left behind by %d rounds", n))
	report("fd-growth", name, d(func(s snap) float64 { return s.fds }), 5, "file descriptors left open")
	report("goroutine-growth", name, d(func(s snap) float64 { return s.gor }), 2, "goroutines left running")
	report("mapping-growth", name, d(func(s snap) float64 { return s.maps }), 100, "memory mappings left behind")
	report("thread-growth", name, d(func(s snap) float64 { return s.thr }), 16, "threads left behind")
}

func inject(on bool) {
	t := ubc.SHA1_dvs()
	if on {
		saved = append([]ubc.DvInfo(nil), t...)
	}
	for i := range t {
		if on {
			t[i].Dm = [80]uint32{}
		} else {
			t[i].Dm = saved[i].Dm
		}
	}
	injectC(on)
}

var saved []ubc.DvInfo

// flagged: many different attack blocks (made so by removing all differences from
// the table) must not each leave something behind either.
func flagged(k, scale int) {
	n := 1500 * scale
	r := rand.New(rand.NewPCG(uint64(k), 77))
	blks := make([]byte, 0, 64*4*n)
	for i := 0; len(blks) < 64*4*n; i++ {
		if b := gen.PassBlock(r, i%32); b != nil {
			blks = append(blks, b...)
		}
	}
	inject(true)
	found := 0
	round := func(j int) {
		for i := j * n; i < (j+1)*n; i++ {
			b := blks[64*i : 64*i+64]
			_, c := kinds[k].sum(b)
			h := kinds[k].mk()
			h.Write(buf[:i%64])
			h.Write(b)
			h.Write(b[:i%64])
			h.Write(b[i%64:])
			d, _ := h.(crh).CollisionResistantSum(nil)
			sink ^= d[0]
			if c {
				found++
			}
		}
		calls += 6 * n
	}
	round(0)
	round(1)
	a := base()
	round(2)
	round(3)
	c := after(func(s snap) bool {
		return s.heap-a.heap > 96<<10 || s.objs-a.objs > 1400 || s.c-a.c > 48<<10 || s.gor-a.gor > 4
	})
	inject(false)
	d := func(f func(snap) float64) float64 { return (f(c) - f(a)) / 2 }
	name := kinds[k].name
	txt := fmt.Sprintf("left behind by %d different attack blocks (%d of %d flagged)", n, found, 4*n)
	report("flagged-heap-growth", name, d(func(s snap) float64 { return s.heap }), 48<<10, "bytes of Go heap "+txt)
	report("flagged-object-growth", name, d(func(s snap) float64 { return s.objs }), 700, "heap objects "+txt)
	report("flagged-c-heap-growth", name, d(func(s snap) float64 { return s.c }), 24<<10, "bytes of C heap "+txt)
	report("flagged-goroutine-growth", name, d(func(s snap) float64 { return s.gor }), 2, "goroutines "+txt)
	runtime.KeepAlive(blks)
}

// each: no single kind of call leaves anything behind, however little.
func each(k, scale int) {
	mk, sum, name := kinds[k].mk, kinds[k].sum, kinds[k].name
	clean, bad, h := mk(), mk(), mk()
	clean.Write(buf[:77])
	bad.Write(attacks[0])
	bad.Write(buf[:9])
	var tmp [64]byte
	type act struct {
		name string
		n    int
		do   func(i int)
	}
	acts := []act{
		{"New", 40000, func(i int) { sink ^= byte(mk().Size()) }},
		{"New, one Write", 40000, func(i int) { mk().Write(buf[i%1000 : i%1000+i%7]) }},
		{"package-level Sum", 40000, func(i int) { d, _ := sum(buf[i%1000 : i%1000+i%70]); sink ^= d[0] }},
		{"package-level Sum of an attack", 15000, func(i int) { d, _ := sum(attacks[i%2]); sink ^= d[0] }},
		{"Sum", 40000, func(i int) { sink ^= clean.Sum(tmp[:0])[0] }},
		{"Sum of a flagged hash", 40000, func(i int) { sink ^= bad.Sum(tmp[:i%3])[3] }},
		{"CollisionResistantSum", 40000, func(i int) { d, _ := clean.(crh).CollisionResistantSum(tmp[:0]); sink ^= d[0] }},
		{"CollisionResistantSum of a flagged hash", 40000, func(i int) { d, _ := bad.(crh).CollisionResistantSum(tmp[:0]); sink ^= d[0] }},
		{"a small Write", 40000, func(i int) { h.Write(buf[i%1000 : i%1000+i%9]) }},
		{"an empty Write", 40000, func(i int) { h.Write(nil) }},
		{"a small Write to a flagged hash", 40000, func(i int) { bad.Write(buf[i%1000 : i%1000+i%9]) }},
		{"Reset", 40000, func(i int) { h.Reset() }},
		{"Reset of a flagged hash", 10000, func(i int) { h.Write(attacks[i%2]); h.Reset() }},
		{"CalculateDvMask", 20000, func(i int) {
			var w [80]uint32
			for j := range w {
				w[j] = uint32(i * j)
			}
			if k == 0 {
				sink ^= byte(ubc.CalculateDvMask(&w))
			} else {
				sink ^= byte(cgo.CalculateDvMask(w))
			}
		}},
	}
	if ma, ok := clean.(encoding.BinaryMarshaler); ok {
		if um, ok := h.(encoding.BinaryUnmarshaler); ok {
			mb := bad.(encoding.BinaryMarshaler)
			st, _ := ma.MarshalBinary()
			fl, _ := mb.MarshalBinary()
			wrong := append([]byte(nil), st...)
			if len(wrong) > 0 {
				wrong[0] ^= 1
			}
			acts = append(acts,
				act{"MarshalBinary", 40000, func(i int) { b, _ := ma.MarshalBinary(); sink ^= b[0] }},
				act{"MarshalBinary of a flagged hash", 40000, func(i int) { b, _ := mb.MarshalBinary(); sink ^= b[0] }},
				act{"UnmarshalBinary", 40000, func(i int) { um.UnmarshalBinary(st) }},
				act{"UnmarshalBinary of a flagged state", 40000, func(i int) { um.UnmarshalBinary(fl) }},
				act{"UnmarshalBinary of a state cut short", 40000, func(i int) { um.UnmarshalBinary(st[:i%len(st)]) }},
				act{"UnmarshalBinary of a flagged state cut short", 40000, func(i int) { um.UnmarshalBinary(fl[:i%len(fl)]) }},
				act{"UnmarshalBinary of another identifier", 40000, func(i int) { um.UnmarshalBinary(wrong) }})
		}
	}
	for _, a := range acts {
		n := a.n * scale
		for i := 0; i < n/4; i++ {
			a.do(i)
		}
		x := base()
		for i := 0; i < n; i++ {
			a.do(i)
		}
		y := after(func(y snap) bool {
			return y.heap-x.heap > 80<<10 || y.objs-x.objs > 1500 || y.c-x.c > 64<<10 || y.gor-x.gor > 2
		})
		calls += n + n/4
		txt := fmt.Sprintf(" left behind by %d times %s", n, a.name)
		report("each-heap", name, y.heap-x.heap, 80<<10, "bytes of Go heap"+txt)
		report("each-objects", name, y.objs-x.objs, 1500, "heap objects"+txt)
		report("each-c-heap", name, y.c-x.c, 64<<10, "bytes of C heap"+txt)
		report("each-goroutines", name, y.gor-x.gor, 2, "goroutines"+txt)
	}
}

// held: what was written can be collected although the hash lives on.
func held(k int) {
	var live [40]hash.Hash
	var gone atomic.Int32
	for i := range live {
		live[i] = kinds[k].mk()
		n := 70000 + 64*i + i
		if i%2 == 1 {
			n = 33 + i // a partial block only
		}
		if i%8 == 4 {
			n = 1<<20 + i<<17
		}
		p := make([]byte, n)
		if i%4 == 0 {
			copy(p, attacks[0])
		}
		runtime.SetFinalizer(&p[0], func(*byte) { gone.Add(1) })
		live[i].Write(p)
		live[i].Sum(nil)
		calls += 2
	}
	for i := 0; i < 400 && gone.Load() < int32(len(live)); i++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
	}
	report("buffers-held", kinds[k].name, float64(int32(len(live))-gone.Load()), 2, "of 40 written buffers still reachable from the hashes")
	for i := range live {
		sink ^= live[i].Sum(nil)[0]
	}
}

// perHash: the memory a live hash needs, and that it does not grow with use.
func perHash(k int) {
	const n = 3000
	a := base()
	hs := make([]hash.Hash, n)
	for i := range hs {
		hs[i] = kinds[k].mk()
		hs[i].Write(buf[:100])
	}
	b := base()
	report("hash-size", kinds[k].name, (b.heap-a.heap+b.c-a.c)/n, 64<<10, "bytes per live hash")
	for i := range hs {
		for j := 0; j < 12; j++ {
			hs[i].Write(buf[j*500 : j*500+499])
			hs[i].Sum(nil)
		}
		hs[i].Write(attacks[i%4])
	}
	c := after(func(s snap) bool { return (s.heap-b.heap+s.c-b.c)/n > 512 })
	report("hash-growth", kinds[k].name, (c.heap-b.heap+c.c-b.c)/n, 512, "bytes a live hash grew by while 6 KiB were written to it")
	runtime.KeepAlive(hs)
}

// big: one large write needs no memory of its size.
func big(k int) {
	const n = 192 << 20
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println("mmap:", err)
		os.Exit(3)
	}
	defer syscall.Munmap(m)
	h := kinds[k].mk()
	var a, b runtime.MemStats
	take()
	c0 := cHeap()
	runtime.ReadMemStats(&a)
	h.Write(m)
	c1 := cHeap()
	runtime.ReadMemStats(&b)
	sink ^= h.Sum(nil)[0]
	report("big-write-memory", kinds[k].name, float64(b.Sys)-float64(a.Sys)+c1-c0, 64<<20, "bytes more taken from the system by one write of 192 MiB")
}

var worst []byte

// linear: twice the data, about twice the time, whatever the data and however
// it is cut.
func linear(k int) {
	name := kinds[k].name
	data := make([]byte, 24<<20)
	for i := range data {
		data[i] = byte(i*7) ^ byte(i>>9)
	}
	per := func(p []byte, step int) float64 {
		best := 1e9
		for i := 0; i < 4; i++ {
			h := kinds[k].mk()
			t := cpu()
			for o := 0; o < len(p); o += step {
				h.Write(p[o:min(o+step, len(p))])
			}
			sink ^= h.Sum(nil)[0]
			if d := (cpu() - t) / float64(len(p)); d < best {
				best = d
			}
		}
		calls += 4 * (len(p) / step)
		return best
	}
	small := per(data[:2<<20], 2<<20)
	large := per(data, len(data))
	report("time-large", name, large/small, 12, "CPU time per byte, one 24 MiB write against one 2 MiB write")
	s1, s2 := per(data[:1<<20], 100), per(data[:12<<20], 100)
	report("time-small-writes", name, s2/s1, 12, "CPU time per byte, 12 MiB against 1 MiB, in 100-byte writes")
	if len(worst) >= 64 {
		for i := 0; i < len(data); i += 64 {
			copy(data[i:i+64], worst[(i%(len(worst)/64*64)):])
		}
		w := per(data[:2<<20], 2<<20)
		report("time-worst-data", name, w/small, 400, "CPU time per byte, blocks satisfying many bit conditions against ordinary data")
		w2 := per(data[:24<<20], 24<<20)
		report("time-worst-large", name, w2/w, 12, "CPU time per byte, the same, 24 MiB against 2 MiB")
	}
	// contents that code might treat specially: what they cost, against ordinary data
	r := rand.New(rand.NewPCG(uint64(k), 78))
	odd := map[string][]byte{"zeros": make([]byte, 64), "ones": bytes.Repeat([]byte{255}, 64), "a repeated letter": bytes.Repeat([]byte{'a'}, 64),
		"a repeated word": bytes.Repeat([]byte{1, 0x80, 7, 0xfe}, 16), "an attack": attacks[0][:len(attacks[0])/64*64], "another attack": attacks[2][:len(attacks[2])/64*64]}
	for i := 0; i < 96; i++ {
		if b, what := gen.StructBlock(r, i%32, -1, ref.IV); b != nil {
			odd["blocks that satisfy bit conditions: "+what] = append(odd["blocks that satisfy bit conditions: "+what], b...)
		}
		if b := gen.PassBlock(r, i%32); b != nil {
			odd["blocks that satisfy bit conditions"] = append(odd["blocks that satisfy bit conditions"], b...)
		}
	}
	for what, b := range odd {
		p := data[:1<<19]
		for i := 0; i < len(p); i += 64 {
			o := i % len(b)
			copy(p[i:i+64], b[o:o+64])
		}
		report("time-content", name, per(p, len(p))/small, 150, "CPU time per byte, "+what+" against ordinary data")
	}
	// observing, saving and resetting do not get dearer the more has been written
	h := kinds[k].mk()
	type act struct {
		name string
		do   func()
	}
	acts := []act{{"Sum", func() { sink ^= h.Sum(nil)[0] }},
		{"CollisionResistantSum", func() { d, _ := h.(crh).CollisionResistantSum(nil); sink ^= d[0] }},
		{"Size", func() { sink ^= byte(h.Size() + h.BlockSize()) }},
		{"a small Write", func() { h.Write(data[:3]) }}}
	var sts [][]byte
	ma, ok := h.(encoding.BinaryMarshaler)
	um, ok2 := h.(encoding.BinaryUnmarshaler)
	if ok && ok2 {
		acts = append(acts, act{"MarshalBinary", func() { b, _ := ma.MarshalBinary(); sink ^= b[0] }},
			act{"UnmarshalBinary", func() { b, _ := ma.MarshalBinary(); um.UnmarshalBinary(b) }})
	}
	obs := func(f func()) float64 {
		best := 1e9
		for i := 0; i < 5; i++ {
			t := cpu()
			n := 0
			for n < 4000 {
				f()
				if n++; n%50 == 0 && cpu()-t > 1 {
					break
				}
			}
			calls += n
			d := cpu() - t
			best = min(best, d/float64(n)*4000)
			if d > 1 {
				break
			}
		}
		return best
	}
	h.Write(data[:100])
	var before []float64
	for _, a := range acts {
		before = append(before, obs(a.do))
	}
	for i := 0; i < 5; i++ {
		h.Write(data)
	}
	for i, a := range acts {
		report("time-observe", name, obs(a.do)/max(before[i], 4e-4), 12, "CPU time of "+a.name+" after 120 MiB against after 100 bytes")
	}
	var reset float64 = 1e9
	for i := 0; i < 5; i++ { // Reset after much data against Reset after little
		var few, much float64
		for j := 0; j < 200; j++ {
			h.Write(data[:100])
			t := cpu()
			h.Reset()
			few += cpu() - t
		}
		for j := 0; j < 20; j++ {
			h.Write(data[:1<<20])
			t := cpu()
			h.Reset()
			much += cpu() - t
		}
		reset = min(reset, (much/20)/max(few/200, 3e-6))
	}
	report("time-reset", name, reset, 12, "CPU time of Reset after 1 MiB against after 100 bytes")
	if ok && ok2 {
		b, err := ma.MarshalBinary()
		if err == nil && len(b) >= 8 {
			// a state said to be very long: the length is the last eight bytes
			for _, v := range []uint64{1 << 32, 1 << 40, 1 << 55} {
				st := append([]byte(nil), b...)
				for i := 0; i < 8; i++ {
					st[len(st)-1-i] = byte(v >> (8 * i))
				}
				sts = append(sts, st)
			}
		}
		for _, st := range sts {
			if um.UnmarshalBinary(st) != nil {
				continue
			}
			for i, a := range acts {
				report("time-observe-long", name, obs(a.do)/max(before[i], 4e-4), 12, "CPU time of "+a.name+" in a very long message against a short one")
			}
		}
	}
}

// population: hashes do not get dearer the more of them there are or were.
func population(k int) {
	lap := func() float64 {
		best := 1e9
		for i := 0; i < 4; i++ {
			t := cpu()
			work(k, 1500)
			best = min(best, cpu()-t)
		}
		return best
	}
	a := lap()
	hs := make([]hash.Hash, 20000)
	for i := range hs {
		hs[i] = kinds[k].mk()
		hs[i].Write(buf[:i%300])
	}
	for i := 0; i < 30000; i++ {
		kinds[k].sum(buf[i%1000 : i%1000+i%200])
	}
	calls += 50000
	b := lap()
	runtime.KeepAlive(hs)
	report("time-population", kinds[k].name, b/a, 12, "CPU time of a fixed amount of work with 20000 hashes alive against none")
}
