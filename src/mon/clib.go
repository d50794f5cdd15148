package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"

	"vmon/gen"
	"vmon/ref"
)

func cmdCGen(args []string) {
	fs := flag.NewFlagSet("cgen", flag.ExitOnError)
	prop := fs.String("p", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	data := fs.String("data", "", "")
	out := fs.String("o", "", "")
	fs.Parse(args)
	var att [][]byte
	for _, f := range gen.AttackFiles {
		b, err := os.ReadFile(filepath.Join(*data, f))
		if err != nil {
			die(err)
		}
		att = append(att, b)
	}
	b := gen.New(*seed, *prop+"/clib/"+*tier, att)
	c := gen.CPlan(b, *prop, *tier)
	if err := os.WriteFile(*out, c.End(), 0o644); err != nil {
		die(err)
	}
	js, _ := json.Marshal(c.Notes)
	if err := os.WriteFile(*out+".notes", js, 0o644); err != nil {
		die(err)
	}
	fmt.Println(len(c.Notes))
}

type cres struct {
	Complete                               bool
	Cases, Ops, Digests, Flagged, Masks    int
	NFindings                              int
	Findings                               []string
	Sigs                                   []uint64
	DVs                                    int
	Case                                   int // where the output stops
	Blocks, Passing, Detected, OptSwitches uint64
}

// cmdCCheck replays the operation stream on the model and compares the records.
func cmdCCheck(args []string) {
	fs := flag.NewFlagSet("ccheck", flag.ExitOnError)
	in := fs.String("i", "", "")
	tr := fs.String("t", "", "")
	fs.Parse(args)
	ops, err := os.ReadFile(*in)
	if err != nil {
		die(err)
	}
	got, err := os.ReadFile(*tr)
	if err != nil {
		die(err)
	}
	var notes []string
	if b, err := os.ReadFile(*in + ".notes"); err == nil {
		json.Unmarshal(b, &notes)
	}
	res := &cres{}
	base := ref.StdTable()
	have := make([]bool, 32)
	tbl := cloneT(base)
	var slots [8]ref.Digest
	for i := range slots {
		slots[i] = *ref.New(tbl)
		slots[i].Opt = &ref.Opts{}
	}
	p, g, avail := 0, 0, 15
	u1 := func() int { p++; return int(ops[p-1]) }
	u4 := func() uint32 { p += 4; return binary.BigEndian.Uint32(ops[p-4:]) }
	h := fnv.New64a()
	sigs := map[uint64]bool{}
	ci := -1
	bad := false
	expect := func(op int, exp []byte, text string) bool {
		res.Ops++
		if g+len(exp) > len(got) {
			return false
		}
		x := got[g : g+len(exp)]
		g += len(exp)
		if x[0] != exp[0] {
			res.NFindings++
			res.Findings = append(res.Findings, fmt.Sprintf("case %d: out of step", ci))
			bad = true
			return false
		}
		h.Write(exp)
		if string(x) != string(exp) {
			res.NFindings++
			if len(res.Findings) < 10 {
				n := ""
				if ci >= 0 && ci < len(notes) {
					n = notes[ci]
				}
				res.Findings = append(res.Findings, fmt.Sprintf("case %d (%s): %s: expected %x, got %x", ci, n, text, exp, x))
			}
		}
		return true
	}
	endCase := func() {
		if ci >= 0 {
			sigs[h.Sum64()] = true
			h.Reset()
		}
	}
	harvest := func(d *ref.Digest) {
		res.Blocks += d.Blocks
		res.Passing += d.Passing
		res.Detected += d.Detected
		d.Blocks, d.Passing, d.Detected = 0, 0, 0
	}
loop:
	for p < len(ops) && !bad {
		op := u1()
		switch op {
		case 'D':
			if g+3 > len(got) || got[g] != 'D' {
				break loop
			}
			avail = int(got[g+1])
			n := int(got[g+2])
			g += 3
			if g+5*n > len(got) {
				break loop
			}
			res.DVs = n
			for i := 0; i < n; i++ {
				e := got[g+5*i:]
				for r := range ref.DVs {
					d := &ref.DVs[r]
					if d.Type == int(e[0]) && d.K == int(e[1]) && d.B == int(e[2]) && d.Window[e[3]] && d.Bit == int(e[4]) {
						base.TestT[r] = int(e[3])
						have[r] = true
					}
				}
			}
			g += 5 * n
			*tbl = *base
		case 'R':
			endCase()
			ci++
			res.Cases++
			tbl.Dm = base.Dm
			if !expect(op, []byte{'R'}, "") {
				break loop
			}
		case 'P':
			p += 6
			if !expect(op, []byte{'P'}, "") {
				break loop
			}
		case 'I':
			s := u1()
			harvest(&slots[s])
			slots[s] = *ref.New(tbl)
			slots[s].Opt = &ref.Opts{}
			if !expect(op, []byte{'I'}, "") {
				break loop
			}
		case 'O':
			s, w, v := u1(), u1(), u4() != 0
			o := *slots[s].Opt
			if avail>>w&1 == 0 {
				w = -1
			}
			switch w {
			case 0:
				o.NoSafe = !v
			case 1:
				o.NoUBC = !v
			case 2:
				o.NoDetect = !v
			case 3:
				o.Reduced = v
			}
			slots[s].Opt = &o
			res.OptSwitches++
			if !expect(op, []byte{'O'}, "") {
				break loop
			}
		case 'U':
			s := u1()
			p++
			n := int(u4())
			slots[s].Write(ops[p : p+n])
			p += n
			if !expect(op, []byte{'U', 1}, fmt.Sprintf("SHA1DCUpdate of %d bytes leaves its input alone", n)) {
				break loop
			}
		case 'Z':
			s, k, n := u1(), u4(), u4()
			slots[s].WriteZeros(uint64(k) * uint64(n))
			if !expect(op, []byte{'Z'}, "") {
				break loop
			}
		case 'F':
			s := u1()
			p++
			out, fl := slots[s].Sum()
			res.Digests++
			e := []byte{'F', 0}
			if fl {
				e[1] = 1
				res.Flagged++
			}
			e = append(append(e, out...), 1)
			if !expect(op, e, fmt.Sprintf("SHA1DCFinal (verdict, digest, nothing else written), switches %+v, %d bytes", *slots[s].Opt, slots[s].Len)) {
				break loop
			}
			// A finalised context is not used again before SHA1DCInit.
		case 'C':
			s, d := u1(), u1()
			harvest(&slots[s])
			harvest(&slots[d])
			slots[d] = slots[s]
			if !expect(op, []byte{'C'}, "") {
				break loop
			}
		case 'M':
			var w [80]uint32
			for i := range w {
				w[i] = u4()
			}
			if g+1 < len(got) && got[g] == 'M' && got[g+1] == 2 { // no such function
				g += 6
				break
			}
			res.Masks++
			if !expect(op, binary.BigEndian.AppendUint32([]byte{'M', 1}, ref.Mask(&w)), "ubc_check (operands intact, mask)") {
				break loop
			}
		case 'J':
			t, k, b := u1(), u1(), u1()
			var dm [80]uint32
			for i := range dm {
				dm[i] = u4()
			}
			for r := range ref.DVs {
				if d := &ref.DVs[r]; have[r] && d.Type == t && d.K == k && d.B == b {
					tbl.Dm[r] = dm
				}
			}
			if !expect(op, []byte{'J'}, "") {
				break loop
			}
		case 'E':
			endCase()
			res.Complete = g+1 == len(got) && got[g] == 'E'
			break loop
		default:
			die(fmt.Errorf("bad stream at %d: %x", p-1, op))
		}
	}
	for i := range slots {
		harvest(&slots[i])
	}
	res.Case = ci
	for s := range sigs {
		res.Sigs = append(res.Sigs, s)
	}
	js, _ := json.Marshal(res)
	fmt.Println(string(js))
}
