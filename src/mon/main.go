// Command mon generates workloads and checks recorded traces against the
// reference model.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"

	"vmon/gen"
	"vmon/ref"
	"vmon/wl"
)

type dvDump struct {
	Type, K, B, TestT, MaskI, MaskB uint32
	Dm                              []uint32
}

type header struct {
	GOOS, GOARCH, Go string
	Cgo              bool
	BigEndian        bool
	NumCPU           int
	GoDVs, CDVs      []dvDump
	GoLen            int
	GoSentinel       bool
	LiveGo, LiveC    []bool
	ProbeErr         string
}

type finding struct {
	Kind     string `json:"kind"`
	Case     int    `json:"case"`
	Family   string `json:"family"`
	Note     string `json:"note"`
	Op       int    `json:"op"`
	OpText   string `json:"op_text"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
}

type result struct {
	OK          bool                   `json:"ok"`
	Complete    bool                   `json:"complete"`
	Crashed     int                    `json:"crashed_case"` // -1 none
	CrashFamily string                 `json:"crash_family"`
	CrashNote   string                 `json:"crash_note"`
	Findings    []finding              `json:"findings"`
	NFindings   int                    `json:"n_findings"`
	Cases       int                    `json:"cases"`
	Events      int                    `json:"events"`
	Sigs        []uint64               `json:"sigs"`
	Families    map[string]int         `json:"families"`
	Counts      map[string]uint64      `json:"counts"`
	Stats       map[string]interface{} `json:"stats"`
	Arch        string                 `json:"arch"`
	Go          string                 `json:"go"`
	Cgo         bool                   `json:"cgo"`
	LiveGo      int                    `json:"live_go"`
	LiveC       int                    `json:"live_c"`
	Table       []string               `json:"table"`
	TableSeen   int                    `json:"table_seen"`
	TableC      []string               `json:"table_c"`
	TableCSeen  int                    `json:"table_c_seen"`
	Samples     []string               `json:"samples"`
	SelfErr     string                 `json:"self_err"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon gen|check|show")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "gen":
		cmdGen(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "show":
		cmdShow(os.Args[2:])
	case "cgen":
		cmdCGen(os.Args[2:])
	case "worst":
		r := rand.New(rand.NewPCG(1, 9))
		var b []byte
		for i := 0; i < 256; i++ {
			b = append(b, gen.ManyBlock(r)...)
		}
		if err := os.WriteFile(os.Args[2], b, 0o644); err != nil {
			die(err)
		}
	case "ccheck":
		cmdCCheck(os.Args[2:])
	case "cut":
		cmdCut(os.Args[2:])
	default:
		os.Exit(3)
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "mon:", err)
	os.Exit(3)
}

func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("p", "", "property")
	group := fs.String("g", "", "group")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	data := fs.String("data", "", "")
	out := fs.String("o", "", "")
	fs.Parse(args)
	var att [][]byte
	for _, f := range gen.AttackFiles {
		b, err := os.ReadFile(filepath.Join(*data, f))
		if err != nil {
			die(err)
		}
		att = append(att, b)
	}
	b := gen.New(*seed, *prop+"/"+*group+"/"+*tier, att)
	if err := gen.Plan(b, *prop, *group, *tier); err != nil {
		die(err)
	}
	if err := os.WriteFile(*out, b.W.Encode(), 0o644); err != nil {
		die(err)
	}
	fmt.Println(len(b.W.Cases))
}

func load(path string) *wl.Workload {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	w, err := wl.Decode(b)
	if err != nil {
		die(err)
	}
	return w
}

// cmdCut extracts one case into a workload of its own.
func cmdCut(args []string) {
	fs := flag.NewFlagSet("cut", flag.ExitOnError)
	wf := fs.String("w", "", "")
	ci := fs.Int("c", 0, "")
	out := fs.String("o", "", "")
	fs.Parse(args)
	w := load(*wf)
	c := w.Cases[*ci]
	n := &wl.Workload{Probes: w.Probes, DVs: w.DVs}
	m := map[int]int{}
	var fix func(ops []wl.Op)
	fix = func(ops []wl.Op) {
		for i := range ops {
			o := &ops[i]
			if o.Len > 0 {
				k, ok := m[o.Blob]
				if !ok {
					k = len(n.Blobs)
					m[o.Blob] = k
					bl := w.Blobs[o.Blob]
					n.Blobs = append(n.Blobs, bl)
				}
				o.Blob = k
			} else {
				o.Blob = 0
			}
			for _, l := range o.Lanes {
				fix(l)
			}
		}
	}
	fix(c.Ops)
	n.Cases = []wl.Case{c}
	if err := os.WriteFile(*out, n.Encode(), 0o644); err != nil {
		die(err)
	}
}

func cmdShow(args []string) {
	fs := flag.NewFlagSet("show", flag.ExitOnError)
	wf := fs.String("w", "", "")
	ci := fs.Int("c", 0, "")
	fs.Parse(args)
	w := load(*wf)
	c := w.Cases[*ci]
	m := &model{w: w, cgoGo: false}
	m.base[0], m.base[1] = ref.StdTable(), ref.StdTable()
	m.inert[0], m.inert[1] = make([]bool, len(w.DVs)), make([]bool, len(w.DVs))
	recs := m.runCase(&c)
	fmt.Println("family", c.Family, "note", c.Note)
	for i := range c.Ops {
		fmt.Printf("%3d %s\n      -> %s\n", i, c.Ops[i].String(), wl.Describe(recs[i]))
	}
}

type reader struct {
	b   []byte
	bad bool
}

func (r *reader) u() uint64 {
	v, n := binary.Uvarint(r.b)
	if n <= 0 {
		r.bad = true
		return 0
	}
	r.b = r.b[n:]
	return v
}
func (r *reader) bytes() []byte {
	n := r.u()
	if r.bad || n > uint64(len(r.b)) {
		r.bad = true
		return nil
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}

func checkTable(dvs []dvDump) (problems []string) {
	used := make([]bool, len(dvs))
	for i := range ref.DVs {
		d := &ref.DVs[i]
		name := fmt.Sprintf("DV %d(%d,%d)", d.Type, d.K, d.B)
		found := -1
		for j := range dvs {
			if int(dvs[j].Type) == d.Type && int(dvs[j].K) == d.K && int(dvs[j].B) == d.B {
				if found >= 0 {
					problems = append(problems, name+": listed twice")
				}
				found = j
				used[j] = true
			}
		}
		if found < 0 {
			problems = append(problems, name+": missing")
			continue
		}
		x := &dvs[found]
		if x.MaskI != 0 || int(x.MaskB) != d.Bit {
			problems = append(problems, fmt.Sprintf("%s: mask position %d.%d instead of 0.%d", name, x.MaskI, x.MaskB, d.Bit))
		}
		if x.TestT > 80 || !d.Window[x.TestT] {
			problems = append(problems, fmt.Sprintf("%s: recompression step %d is not one where both messages agree", name, x.TestT))
		}
		for t := 0; t < 80; t++ {
			if len(x.Dm) != 80 || x.Dm[t] != d.Dm[t] {
				problems = append(problems, fmt.Sprintf("%s: message difference at step %d is not the one the disturbance vector defines (%08x)", name, t, d.Dm[t]))
				break
			}
		}
	}
	for j := range dvs {
		if !used[j] {
			problems = append(problems, fmt.Sprintf("unknown entry %d(%d,%d)", dvs[j].Type, dvs[j].K, dvs[j].B))
		}
	}
	return
}

func tableOf(dvs []dvDump) *ref.Table {
	t := ref.StdTable()
	for j := range dvs {
		for i := range ref.DVs {
			d := &ref.DVs[i]
			if int(dvs[j].Type) == d.Type && int(dvs[j].K) == d.K && int(dvs[j].B) == d.B && dvs[j].TestT <= 79 && d.Window[dvs[j].TestT] {
				t.TestT[i] = int(dvs[j].TestT)
			}
		}
	}
	return t
}

// inert tells for which vectors replacing the table entry is taken to have no
// effect: all of them when the implementation evidently does not read this
// table, and with lenient those that another property's check reports.
func inert(live []bool, n int, lenient bool) []bool {
	r := make([]bool, n)
	none := count(live) == 0
	for i := range r {
		r[i] = none || lenient && (i >= len(live) || !live[i])
	}
	return r
}

func count(l []bool) (n int) {
	for _, x := range l {
		if x {
			n++
		}
	}
	return
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	wf := fs.String("w", "", "")
	tf := fs.String("t", "", "")
	panicsOnly := fs.String("panics-only", "", "family for which only panics count")
	lenient := fs.Bool("lenient", false, "do not judge the disturbance vectors found dead by the driver's probes")
	fs.Parse(args)
	w := load(*wf)
	tb, err := os.ReadFile(*tf)
	if err != nil {
		die(err)
	}
	res := &result{Crashed: -1, Families: map[string]int{}, Counts: map[string]uint64{}}
	rd := &reader{b: tb}
	var hd header
	if h := rd.bytes(); rd.bad || json.Unmarshal(h, &hd) != nil {
		res.Crashed = -2 // died before the first case
		emit(res)
		return
	}
	res.Arch, res.Go, res.Cgo = hd.GOARCH, hd.Go, hd.Cgo
	res.LiveGo, res.LiveC = count(hd.LiveGo), count(hd.LiveC)
	if hd.ProbeErr != "" {
		res.NFindings++
		res.Findings = append(res.Findings, finding{Kind: "panic", Case: -1, Family: "probe", Got: "PANIC: " + hd.ProbeErr, Expected: "no panic"})
	}
	res.Table = checkTable(hd.GoDVs)
	res.TableSeen = len(hd.GoDVs)
	if len(hd.CDVs) > 0 {
		res.TableC = checkTable(hd.CDVs)
		res.TableCSeen = len(hd.CDVs)
	}
	m := &model{w: w, cgoGo: !hd.Cgo}
	m.base[0] = tableOf(hd.GoDVs)
	m.base[1] = tableOf(hd.CDVs)
	if m.cgoGo {
		m.base[1] = m.base[0]
	}
	m.inert[0] = inert(hd.LiveGo, len(w.DVs), *lenient)
	m.inert[1] = inert(hd.LiveC, len(w.DVs), *lenient)
	sigs := map[uint64]bool{}
	for {
		if len(rd.b) == 0 {
			break
		}
		v := rd.u()
		if rd.bad {
			break
		}
		if v == 0 {
			js := rd.bytes()
			if !rd.bad && json.Unmarshal(js, &res.Stats) == nil {
				res.Complete = true
				if d, ok := res.Stats["Damaged"].(float64); ok && d >= 0 {
					res.NFindings++
					res.Findings = append(res.Findings, finding{Kind: "memory", Case: -1, Family: "shared", Expected: "shared input buffers unchanged", Got: fmt.Sprintf("blob %d changed", int(d))})
				}
			}
			break
		}
		ci := int(v - 1)
		if ci >= len(w.Cases) {
			break
		}
		c := &w.Cases[ci]
		n := rd.u()
		var recs [][]byte
		if !rd.bad {
			for i := uint64(0); i < n && !rd.bad; i++ {
				recs = append(recs, rd.bytes())
			}
		}
		if rd.bad {
			res.Crashed, res.CrashFamily, res.CrashNote = ci, c.Family, c.Note
			break
		}
		b0 := m.blocks
		exp := m.runCase(c)
		res.Cases++
		res.Families[c.Family]++
		h := fnv.New64a()
		for i := range exp {
			res.Events++
			for _, l := range c.Ops[i].Lanes {
				res.Events += len(l)
			}
			h.Write(exp[i])
			var got []byte
			if i < len(recs) {
				got = recs[i]
			}
			if *panicsOnly != "" && c.Family == *panicsOnly && (len(got) == 0 || got[0] != '!') {
				continue
			}
			if !bytes.Equal(got, exp[i]) {
				res.NFindings++
				if len(res.Findings) < 40 {
					f := finding{Kind: "mismatch", Case: ci, Family: c.Family, Note: c.Note, Op: i, OpText: c.Ops[i].String(), Expected: wl.Describe(exp[i]), Got: wl.Describe(got)}
					if len(got) > 0 && got[0] == '!' {
						f.Kind = "panic"
					}
					if c.Ops[i].Code == wl.OpPar {
						f.Op, f.OpText, f.Expected, f.Got = diffPar(i, &c.Ops[i], exp[i], got)
					}
					res.Findings = append(res.Findings, f)
				}
			}
		}
		if len(recs) > len(exp) && (*panicsOnly == "" || c.Family != *panicsOnly) {
			res.NFindings++
			if len(res.Findings) < 40 {
				res.Findings = append(res.Findings, finding{Kind: "retained", Case: ci, Family: c.Family, Note: c.Note, Op: len(exp), OpText: "end of case",
					Expected: "results already returned stay as they were", Got: wl.Describe(recs[len(exp)])})
			}
		}
		if m.blocks > b0 || c.Family == "mask" {
			sigs[h.Sum64()] = true
		}
		if len(res.Samples) < 4 && res.Families[c.Family] == 1 {
			res.Samples = append(res.Samples, sample(c, exp))
		}
	}
	for s := range sigs {
		res.Sigs = append(res.Sigs, s)
	}
	sort.Slice(res.Sigs, func(i, j int) bool { return res.Sigs[i] < res.Sigs[j] })
	res.SelfErr = m.selfErr
	res.Counts = map[string]uint64{"blocks": m.blocks, "recompressed_blocks": m.passing, "detected_blocks": m.detected, "digests": m.sums,
		"flagged_digests": m.flagged, "clean_digests": m.clean, "states_saved": m.marshals, "states_restored": m.unmarshals,
		"states_rejected": m.rejects, "resets": m.resets, "writes": m.writes, "masks": m.masks, "mask_bits_set": m.maskbits}
	res.OK = res.NFindings == 0 && res.Complete && res.Crashed == -1
	emit(res)
}

func diffPar(op int, o *wl.Op, exp, got []byte) (int, string, string, string) {
	if len(got) < 2 || got[0] != 'P' {
		return op, o.String(), "lane records", wl.Describe(got)
	}
	a, b := &reader{b: exp[2:]}, &reader{b: got[2:]}
	for li, l := range o.Lanes {
		for oi := range l {
			x, y := a.bytes(), b.bytes()
			if !bytes.Equal(x, y) {
				return op, fmt.Sprintf("lane %d op %d: %s", li, oi, l[oi].String()), wl.Describe(x), wl.Describe(y)
			}
		}
		if len(b.b) > 0 {
			n, k := binary.Uvarint(b.b)
			if k > 0 && n > 0 && k+int(n) <= len(b.b) && b.b[k] == '@' {
				return op, fmt.Sprintf("lane %d", li), "results already returned stay as they were", wl.Describe(b.bytes())
			}
		}
	}
	return op, o.String(), "every round alike", "rounds differ"
}

func sample(c *wl.Case, exp [][]byte) string {
	var s bytes.Buffer
	fmt.Fprintf(&s, "%s (%s):", c.Family, c.Note)
	n := 0
	for i := range c.Ops {
		if c.Ops[i].Code == wl.OpInject {
			continue
		}
		fmt.Fprintf(&s, " %s -> %s;", c.Ops[i].String(), trunc(wl.Describe(exp[i]), 120))
		n++
		if n == 5 {
			fmt.Fprintf(&s, " ... (%d ops)", len(c.Ops))
			break
		}
	}
	return s.String()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func emit(r *result) {
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	fmt.Println()
}
