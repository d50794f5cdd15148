// Command drv executes a workload against the code under test and records one
// event per operation. It draws no conclusions: the offline checker does.
package main

import (
	"bufio"
	"encoding"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"runtime/trace"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/pjbgf/sha1cd"
	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"

	"vmon/wl"
)

type dvDump struct {
	Type, K, B, TestT, MaskI, MaskB uint32
	Dm                              []uint32
}

type header struct {
	GOOS, GOARCH, Go string
	Cgo              bool
	BigEndian        bool
	NumCPU           int
	GoDVs, CDVs      []dvDump
	GoLen            int
	GoSentinel       bool
	LiveGo, LiveC    []bool
	ProbeErr         string
}

type stats struct {
	Cases, Ops           int
	ParCases             int
	OverlapPairs         int
	Interleavings        []string
	MaxLanes             int
	LiveHeap             uint64
	GCs                  uint32
	Goroutines           int
	GoroutinesBefore     int
	WriteBytes, SumCalls int
}

var (
	w       *wl.Workload
	origGo  []ubc.DvInfo
	goIndex []int // reference index -> index in the Go table, or -1
)

func newHash(k int) hash.Hash {
	if k == wl.KCgo {
		return cgo.New()
	}
	return sha1cd.New()
}

func snapshotTable() {
	dvs := ubc.SHA1_dvs()
	origGo = append([]ubc.DvInfo(nil), dvs...)
	goIndex = make([]int, len(w.DVs))
	for r, d := range w.DVs {
		goIndex[r] = -1
		for i := range dvs {
			if int(dvs[i].DvType) == d[0] && int(dvs[i].DvK) == d[1] && int(dvs[i].DvB) == d[2] {
				goIndex[r] = i
				break
			}
		}
	}
}

func injectGo(r int, dm *[80]uint32) bool {
	i := goIndex[r]
	if i < 0 {
		return false
	}
	dvs := ubc.SHA1_dvs()
	if i >= len(dvs) {
		return false
	}
	dvs[i].Dm = *dm
	goDirty = true
	return true
}

var goDirty bool

func restore() {
	defer restoreC()
	if !goDirty {
		return
	}
	goDirty = false
	dvs := ubc.SHA1_dvs()
	for i := range dvs {
		if i < len(origGo) {
			dvs[i].Dm = origGo[i].Dm
		}
	}
}

func probe(k int) []bool {
	var zero [80]uint32
	live := make([]bool, len(w.DVs))
	for r := range w.DVs {
		restore()
		if k == wl.KGo {
			if !injectGo(r, &zero) {
				continue
			}
		} else if cgoEnabled {
			if !injectC(r, &zero) {
				continue
			}
		} else if !injectGo(r, &zero) {
			continue
		}
		h := newHash(k)
		h.Write(w.Probes[r])
		c, ok := h.(sha1cd.CollisionResistantHash)
		if !ok {
			continue
		}
		_, live[r] = c.CollisionResistantSum(nil)
	}
	restore()
	return live
}

func mkHeader() (hd header) {
	defer func() {
		if e := recover(); e != nil {
			hd.ProbeErr = fmt.Sprint(e)
		}
	}()
	hd = header{GOOS: runtime.GOOS, GOARCH: runtime.GOARCH, Go: runtime.Version(), Cgo: cgoEnabled, NumCPU: runtime.NumCPU()}
	hd.BigEndian = binary.NativeEndian.Uint16([]byte{0, 1}) == 1
	dvs := ubc.SHA1_dvs()
	hd.GoLen = len(dvs)
	for _, d := range dvs {
		if d.DvType == 0 {
			hd.GoSentinel = true
			break
		}
		hd.GoDVs = append(hd.GoDVs, dvDump{d.DvType, d.DvK, d.DvB, d.TestT, d.MaskI, d.MaskB, append([]uint32(nil), d.Dm[:]...)})
	}
	hd.CDVs = dumpC()
	hd.LiveGo = probe(wl.KGo)
	hd.LiveC = probe(wl.KCgo)
	return
}

// ---- execution ----

type lane struct {
	global map[int]hash.Hash
	local  map[int]hash.Hash
	inLane bool
	arena  *arena
	rec    [][]byte
	t0, t1 []int64
	wb, sc int
	kept   []kept
	nkeep  int
	depth  uint64
}

// kept is a result the code under test gave away: it must never change again.
type kept struct{ got, want []byte }

// keep retains every other result for the rest of the case; the caller may
// overwrite the others.
func (l *lane) keep(got, want []byte) bool {
	l.nkeep++
	if l.nkeep&1 == 0 || len(l.kept) >= 512 {
		return false
	}
	l.kept = append(l.kept, kept{got, want})
	return true
}

// dispose retains the result of Sum, or overwrites the part of it that is new.
func (l *lane) dispose(mode, n int, out, cp []byte) {
	if mode != wl.PreGuard && mode != wl.PreReadOnly && l.keep(out, cp) {
		return
	}
	for i := n; i < len(out); i++ {
		out[i] = 0xEE
	}
}

// release adds a record, which no correct run has, for a retained result that
// changed.
func (l *lane) release() {
	for i, k := range l.kept {
		if string(k.got) != string(k.want) {
			l.rec = append(l.rec, wl.RecRetained(i, k.want, k.got))
			break
		}
	}
	l.kept = nil
}

func (l *lane) get(s int) hash.Hash {
	if s < 16 {
		return l.global[s]
	}
	return l.local[s]
}
func (l *lane) put(s int, h hash.Hash) {
	if s < 16 {
		l.global[s] = h
	} else {
		l.local[s] = h
	}
}

var epoch = time.Now()

func (l *lane) run(ops []wl.Op) {
	for i := range ops {
		var t0 int64
		if l.inLane {
			t0 = int64(time.Since(epoch))
		}
		var r []byte
		if freshStack {
			r = l.onFreshStack(&ops[i])
		} else {
			r = l.exec(&ops[i])
		}
		if l.inLane {
			l.t0 = append(l.t0, t0)
			l.t1 = append(l.t1, int64(time.Since(epoch)))
		}
		l.rec = append(l.rec, r)
	}
}

// freshStack runs every operation on a new goroutine, at another depth each time,
// so that the stack is moved at all sorts of points of the calls.
var freshStack = os.Getenv("VMON_STACK") != ""

func (l *lane) onFreshStack(o *wl.Op) (r []byte) {
	l.depth = l.depth*6364136223846793005 + 1442695040888963407
	n := int(l.depth >> 33 % 120)
	done := make(chan struct{})
	go func() {
		defer close(done)
		deep(n, func() { r = l.exec(o) })
	}()
	<-done
	return r
}

// watched turns on every profiler of the runtime: their signals, hooks and stack
// walks hit the calls wherever they are.
func watched() {
	if os.Getenv("VMON_TRACE") == "" {
		return
	}
	runtime.SetBlockProfileRate(1)
	runtime.SetMutexProfileFraction(1)
	runtime.MemProfileRate = 1
	runtime.SetCPUProfileRate(2000)
	pprof.StartCPUProfile(io.Discard)
	trace.Start(io.Discard)
	go func() {
		buf := make([]byte, 1<<16)
		for i := 0; ; i++ {
			runtime.Stack(buf, true)
			if i%10 == 0 {
				runtime.GC()
			}
			time.Sleep(2 * time.Millisecond)
		}
	}()
}

const canary = 0xC9

// withBuf hands p in the requested kind of memory to fn, and reports whether
// that memory still held p afterwards; the memory is then overwritten so that
// any later use of it shows.
func (l *lane) withBuf(p []byte, mode int, n uint64, fn func([]byte)) (intact bool) {
	check := func(q []byte) bool {
		if len(q) != len(p) {
			return false
		}
		for i := range q {
			if q[i] != p[i] {
				return false
			}
		}
		return true
	}
	scribble := func(q []byte) {
		for i := range q {
			q[i] = 0xA5 ^ byte(i)
		}
	}
	switch mode {
	case wl.BufNil:
		fn(nil)
		return true
	case wl.BufShared:
		fn(p)
		return true // the shared blob is verified as a whole at the end of the run
	case wl.BufGuardEnd, wl.BufGuardBeg, wl.BufReadOnly:
		if l.arena == nil {
			l.arena = newArena(1 << 18)
		}
		a := l.arena
		if len(p) > a.size() {
			a = newArena(len(p))
			defer a.free()
		}
		q := a.place(p, mode != wl.BufGuardBeg)
		if mode == wl.BufGuardEnd {
			q = a.beyond(q)
		}
		if mode == wl.BufReadOnly {
			a.protect(true)
			fn(q)
			intact = check(q)
			a.protect(false)
		} else {
			fn(q)
			intact = check(q)
		}
		scribble(q)
		return intact
	case wl.BufUnalign:
		off := int(n & 63)
		b := make([]byte, len(p)+256)
		for i := range b {
			b[i] = canary
		}
		q := b[64+off : 64+off+len(p) : 64+off+len(p)]
		copy(q, p)
		fn(q)
		intact = check(q)
		for i := range b {
			if (i < 64+off || i >= 64+off+len(p)) && b[i] != canary {
				intact = false
			}
		}
		scribble(q)
		return intact
	case wl.BufSpareCap:
		b := make([]byte, len(p)+96)
		for i := range b {
			b[i] = canary
		}
		q := b[:len(p)]
		copy(q, p)
		fn(q)
		intact = check(q)
		for _, v := range b[len(p):] {
			if v != canary {
				intact = false
			}
		}
		scribble(b)
		return intact
	case wl.BufStack:
		q := append(make([]byte, 0, len(p)), p...)
		deep(int(n), func() { fn(q) })
		intact = check(q)
		scribble(q)
		return intact
	}
	q := append(make([]byte, 0, len(p)), p...)
	fn(q)
	intact = check(q)
	scribble(q)
	return intact
}

//go:noinline
func deep(n int, fn func()) {
	switch {
	case n <= 0:
		fn()
	case n&3 == 1:
		deep8(n-1, fn)
	case n&3 == 2:
		deep24(n-1, fn)
	default:
		deep56(n-1, fn)
	}
}

//go:noinline
func touch(b []byte) { b[0]++ }

//go:noinline
func deep8(n int, fn func()) { var b [8]byte; touch(b[:]); deep(n, fn); touch(b[:]) }

//go:noinline
func deep24(n int, fn func()) { var b [24]byte; touch(b[:]); deep(n, fn); touch(b[:]) }

//go:noinline
func deep56(n int, fn func()) { var b [200]byte; touch(b[:]); deep(n, fn); touch(b[:]) }

// prefix builds the argument of Sum; done checks it afterwards.
func (l *lane) prefix(mode int) (in []byte, done func(out []byte) (prefixOK, tailOK bool)) {
	mk := func(n, spare int) []byte {
		b := make([]byte, n+spare)
		for i := range b {
			b[i] = canary ^ byte(i)
		}
		return b
	}
	var full []byte
	var n int
	var ro *arena
	switch mode {
	case wl.PreNil:
		return nil, func(out []byte) (bool, bool) { return true, true }
	case wl.PreTight:
		full, n = mk(7, 0), 7
	case wl.PreRoomy:
		full, n = mk(5, 60), 5
	case wl.PreEmpty:
		full, n = mk(0, 20), 0
	case wl.PreShort:
		full, n = mk(3, 10), 3
	case wl.PreGuard:
		if l.arena == nil {
			l.arena = newArena(1 << 18)
		}
		full, n = l.arena.place(mk(4, 20), true), 4
	case wl.PreReadOnly:
		if l.arena == nil {
			l.arena = newArena(1 << 18)
		}
		full, n = l.arena.place(mk(11, 0), true), 11
		ro = l.arena
		ro.protect(true)
	}
	if mode >= wl.PreGen {
		n = wl.PreSize(mode)
		full = mk(n, wl.PreSpare(mode))
	}
	in = full[:n]
	return in, func(out []byte) (bool, bool) {
		if ro != nil {
			ro.protect(false)
		}
		p, t := true, true
		for i := 0; i < n; i++ {
			p = p && full[i] == canary^byte(i)
		}
		for i := n + 20; i < len(full); i++ {
			t = t && full[i] == canary^byte(i)
		}
		return p, t
	}
}

// plain is a reader and nothing else.
type plain struct {
	p []byte
	k int
}

func (r *plain) Read(b []byte) (int, error) {
	if len(r.p) == 0 {
		return 0, io.EOF
	}
	n := copy(b[:min(len(b), r.k)], r.p)
	r.p = r.p[n:]
	return n, nil
}

// clone uses the Clone method of newer hash interfaces, if there is one: the
// clone gives the same result and has a life of its own.
func clone(h hash.Hash, want []byte, flag bool) bool {
	m := reflect.ValueOf(h).MethodByName("Clone")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() < 1 {
		return true
	}
	c, ok := m.Call(nil)[0].Interface().(hash.Hash)
	if !ok || c == nil {
		return true
	}
	same := func(h hash.Hash) bool {
		if r, ok := h.(sha1cd.CollisionResistantHash); ok {
			out, fl := r.CollisionResistantSum(nil)
			return string(out) == string(want) && fl == flag
		}
		return string(h.Sum(nil)) == string(want)
	}
	if !same(c) {
		return false
	}
	c.Write(make([]byte, 100))
	if same(c) || !same(h) {
		return false
	}
	c.Reset()
	return same(h)
}

func (l *lane) exec(o *wl.Op) (rec []byte) {
	defer func() {
		if e := recover(); e != nil {
			rec = wl.RecPanic(fmt.Sprintf("%v", e))
			if l.arena != nil {
				l.arena.protect(false)
			}
			if os.Getenv("DRV_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	switch o.Code {
	case wl.OpNew:
		h := newHash(o.K)
		l.put(o.S, h)
		_, c := h.(sha1cd.CollisionResistantHash)
		_, m := h.(encoding.BinaryMarshaler)
		_, u := h.(encoding.BinaryUnmarshaler)
		return wl.RecNew(o.K, c, m, u)
	case wl.OpWrite:
		p := w.Data(o)
		h := l.get(o.S)
		var n int
		var err error
		switch o.M { // what h offers beyond Write is used by these
		case wl.BufString:
			n, err = io.WriteString(h, string(p))
			l.wb += len(p)
			return wl.RecWrite(n, err != nil, true)
		case wl.BufCopy:
			k, err := io.Copy(h, &plain{p, int(o.N) + 1})
			l.wb += len(p)
			return wl.RecWrite(int(k), err != nil, true)
		}
		ok := l.withBuf(p, o.M, o.N, func(b []byte) { n, err = h.Write(b) })
		l.wb += len(p)
		return wl.RecWrite(n, err != nil, ok)
	case wl.OpSum:
		in, done := l.prefix(o.M)
		out := l.get(o.S).Sum(in)
		cp := append([]byte(nil), out...)
		p, t := done(out)
		l.sc++
		l.dispose(o.M, len(in), out, cp)
		return wl.RecSum(cp, p, t)
	case wl.OpCRS:
		in, done := l.prefix(o.M)
		out, fl := l.get(o.S).(sha1cd.CollisionResistantHash).CollisionResistantSum(in)
		cp := append([]byte(nil), out...)
		p, t := done(out)
		t = t && clone(l.get(o.S), cp[len(in):], fl)
		l.sc++
		l.dispose(o.M, len(in), out, cp)
		return wl.RecCRS(cp, fl, p, t)
	case wl.OpReset:
		l.get(o.S).Reset()
		return wl.RecReset()
	case wl.OpMarshal:
		m := l.get(o.S).(encoding.BinaryMarshaler)
		out, err := m.MarshalBinary()
		cp := append([]byte(nil), out...)
		for i := range out[:cap(out)] {
			out[:cap(out)][i] = 0x5A
		}
		again, err2 := m.MarshalBinary()
		l.keep(again, append([]byte(nil), again...))
		if a, ok := m.(interface {
			AppendBinary([]byte) ([]byte, error)
		}); ok && err == nil {
			x, e := a.AppendBinary(append(make([]byte, 0, 3+l.sc%200), "abc"...))
			if e != nil || string(x) != "abc"+string(cp) {
				err2 = errors.New("AppendBinary")
			}
		}
		return wl.RecMarshal(cp, err != nil || err2 != nil, string(again) == string(cp))
	case wl.OpUnmarshal:
		u := l.get(o.S).(encoding.BinaryUnmarshaler)
		p := w.Data(o)
		mode := o.M
		if o.Len == 0 && o.M == wl.BufNil {
			p = nil
		}
		var err error
		ok := l.withBuf(p, mode, o.N, func(b []byte) { err = u.UnmarshalBinary(b) })
		return wl.RecUnmarshal(err != nil, ok)
	case wl.OpSize:
		h := l.get(o.S)
		return wl.RecSize(h.Size(), h.BlockSize())
	case wl.OpConsts:
		if o.K == wl.KCgo {
			return wl.RecSize(cgo.Size, cgo.BlockSize)
		}
		return wl.RecSize(sha1cd.Size, sha1cd.BlockSize)
	case wl.OpSumFn:
		p := w.Data(o)
		var out []byte
		var fl bool
		ok := l.withBuf(p, o.M, o.N, func(b []byte) {
			if o.K == wl.KCgo {
				out, fl = cgo.Sum(b)
			} else {
				var a [20]byte
				a, fl = sha1cd.Sum(b)
				out = a[:]
			}
		})
		l.wb += len(p)
		cp := append([]byte(nil), out...)
		l.dispose(wl.PreNil, 0, out, cp)
		return wl.RecSumFn(cp, fl, ok)
	case wl.OpMask:
		if o.M == 1 {
			return wl.RecMask(ubc.CalculateDvMask(nil), true)
		}
		p := w.Data(o)
		var W, V [80]uint32
		for i := range W {
			W[i] = binary.BigEndian.Uint32(p[4*i:])
		}
		V = W
		var m uint32
		if o.K == wl.KCgo {
			m = cgo.CalculateDvMask(W)
		} else {
			m = ubc.CalculateDvMask(&W)
		}
		return wl.RecMask(m, V == W)
	case wl.OpInject:
		p := w.Data(o)
		var dm [80]uint32
		for i := range dm {
			dm[i] = binary.BigEndian.Uint32(p[4*i:])
		}
		if o.K&1 != 0 {
			injectGo(int(o.N), &dm)
		}
		if o.K&2 != 0 {
			injectC(int(o.N), &dm)
		}
		return wl.RecInject(true)
	case wl.OpRestore:
		restore()
		return wl.RecVoid('r')
	case wl.OpGC:
		runtime.GC()
		return wl.RecVoid('g')
	case wl.OpBigZero:
		a := mapZero(int(o.N), w.Data(o), o.M)
		n, err := l.get(o.S).Write(a)
		unmap(a)
		return wl.RecWrite(n, err != nil, true)
	case wl.OpSumTo:
		src, dst := l.get(o.S), l.get(int(o.N))
		var b []byte
		var fl bool
		if o.K == 1 {
			b, fl = src.(sha1cd.CollisionResistantHash).CollisionResistantSum(nil)
		} else {
			b = src.Sum(nil)
		}
		n, err := dst.Write(b)
		return wl.RecSumTo(n, err != nil, fl)
	case wl.OpPar:
		return l.par(o)
	}
	return wl.RecSkipped("unknown op " + strconv.Itoa(o.Code))
}

var (
	st   stats
	seen = map[string]bool{}
)

func (l *lane) par(o *wl.Op) []byte {
	rounds := int(o.N)
	if rounds < 1 {
		rounds = 1
	}
	var first []byte
	for r := 0; r < rounds; r++ {
		lanes := make([]*lane, len(o.Lanes))
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for i := range lanes {
			lanes[i] = &lane{global: l.global, local: map[int]hash.Hash{}, inLane: true}
			ready.Add(1)
			done.Add(1)
			go func(ln *lane, ops []wl.Op) {
				defer done.Done()
				ready.Done()
				<-start
				ln.run(ops)
				ln.release()
				if ln.arena != nil {
					ln.arena.free()
					ln.arena = nil
				}
			}(lanes[i], o.Lanes[i])
		}
		ready.Wait()
		close(start)
		done.Wait()
		var out []byte
		for _, ln := range lanes {
			for _, rr := range ln.rec {
				out = binary.AppendUvarint(out, uint64(len(rr)))
				out = append(out, rr...)
			}
			l.wb += ln.wb
			l.sc += ln.sc
		}
		overlap(lanes)
		if r == 0 {
			first = out
		} else if string(first) != string(out) {
			// Report the deviating round: the model knows which one is right.
			return append([]byte{'P', 1}, out...)
		}
	}
	return append([]byte{'P', 0}, first...)
}

func overlap(lanes []*lane) {
	type ev struct {
		t    int64
		lane int
		end  bool
	}
	var evs []ev
	for i, l := range lanes {
		for j := range l.t0 {
			evs = append(evs, ev{l.t0[j], i, false}, ev{l.t1[j], i, true})
		}
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
	open := 0
	var sig uint64 = 14695981039346656037
	for _, e := range evs {
		if e.end {
			open--
		} else {
			st.OverlapPairs += open
			open++
		}
		x := uint64(e.lane) << 1
		if e.end {
			x |= 1
		}
		sig = (sig ^ x) * 1099511628211
	}
	s := strconv.FormatUint(sig, 36)
	if !seen[s] && len(seen) < 200000 {
		seen[s] = true
	}
	st.ParCases++
	if len(lanes) > st.MaxLanes {
		st.MaxLanes = len(lanes)
	}
}

func main() {
	wf := flag.String("w", "", "workload")
	of := flag.String("o", "", "trace")
	shard := flag.String("shard", "0/1", "i/n")
	skip := flag.Int("skip", 0, "skip cases with any of these flags")
	only := flag.Int("only", -1, "run a single case")
	cold := flag.Bool("cold", false, "run the single case before anything else touches the library")
	verbose := flag.Bool("v", false, "print each op")
	flag.Parse()
	b, err := os.ReadFile(*wf)
	if err != nil {
		fatal(err)
	}
	w, err = wl.Decode(b)
	if err != nil {
		fatal(err)
	}
	for i := range w.Blobs {
		w.Blobs[i].Bytes()
	}
	watched()
	st.GoroutinesBefore = runtime.NumGoroutine()
	var coldRec [][]byte
	if *cold {
		l := &lane{global: map[int]hash.Hash{}, local: map[int]hash.Hash{}}
		l.run(w.Cases[*only].Ops)
		l.release()
		coldRec = l.rec
	}
	snapshotTable()
	of2, err := os.Create(*of)
	if err != nil {
		fatal(err)
	}
	out := bufio.NewWriterSize(of2, 1<<16)
	put := func(b []byte) {
		var t [binary.MaxVarintLen64]byte
		out.Write(t[:binary.PutUvarint(t[:], uint64(len(b)))])
		out.Write(b)
	}
	putU := func(v uint64) {
		var t [binary.MaxVarintLen64]byte
		out.Write(t[:binary.PutUvarint(t[:], v)])
	}
	hd, _ := json.Marshal(mkHeader())
	put(hd)
	out.Flush()

	parts := strings.Split(*shard, "/")
	si, _ := strconv.Atoi(parts[0])
	sn, _ := strconv.Atoi(parts[1])
	main := &lane{}
	last := time.Now()
	for ci := range w.Cases {
		c := &w.Cases[ci]
		if *only >= 0 && ci != *only || *only < 0 && (ci%sn != si || c.Flags&*skip != 0) {
			continue
		}
		// The case number goes out before the case runs, so that a crash can be
		// attributed.
		putU(uint64(ci + 1))
		out.Flush()
		main.global = map[int]hash.Hash{}
		main.local = map[int]hash.Hash{}
		main.rec = nil
		if *cold {
			main.rec = coldRec
		} else if *verbose {
			for i := range c.Ops {
				fmt.Fprintln(os.Stderr, "op", i, c.Ops[i].String())
				main.run(c.Ops[i : i+1])
				fmt.Fprintln(os.Stderr, "   ", wl.Describe(main.rec[len(main.rec)-1]))
			}
		} else {
			main.run(c.Ops)
		}
		main.release()
		restore()
		putU(uint64(len(main.rec)))
		for _, r := range main.rec {
			put(r)
		}
		st.Cases++
		st.Ops += len(c.Ops)
		if time.Since(last) > time.Second {
			out.Flush()
			last = time.Now()
		}
	}
	if main.arena != nil {
		main.arena.free()
	}
	putU(0)
	// Shared blobs must still hold what they held.
	damaged := -1
	for i := range w.Blobs {
		bl := &w.Blobs[i]
		if bl.N > 0 && string(bl.Lit) != string(wl.Rand(bl.Seed, bl.N)) {
			damaged = i
		}
	}
	if damaged < 0 {
		// literal blobs alias the workload file image: compare with the file
		if b2, err := os.ReadFile(*wf); err == nil && string(b2) != string(b) {
			damaged = len(w.Blobs)
		}
	}
	st.WriteBytes, st.SumCalls = main.wb, main.sc
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	st.GCs = ms.NumGC
	st.Goroutines = runtime.NumGoroutine()
	for s := range seen {
		st.Interleavings = append(st.Interleavings, s)
	}
	sort.Strings(st.Interleavings)
	js, _ := json.Marshal(struct {
		stats
		Damaged int
	}{st, damaged})
	put(js)
	if err := out.Flush(); err != nil {
		fatal(err)
	}
	of2.Close()
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "drv:", err)
	os.Exit(3)
}
