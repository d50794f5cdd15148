package ref

import (
	"crypto/sha1"
	"fmt"
	"os"
	"testing"
)

func TestRef(t *testing.T) {
	for n := 0; n < 500; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		d := New(StdTable())
		d.Write(b)
		s, c := d.Sum()
		w := sha1.Sum(b)
		if c || string(s) != string(w[:]) {
			t.Fatal(n)
		}
	}
	for _, f := range []string{"sha-mbles-1.bin", "sha-mbles-2.bin"} {
		b, _ := os.ReadFile("../../data/" + f)
		d := New(StdTable())
		for i := 0; i < len(b); i += 64 {
			h, bi := Block(d.H, b[i:i+64], d.Tbl)
			fmt.Println(f, i/64, bi)
			d.H = h
		}
		d = New(StdTable())
		d.Write(b)
		s, c := d.Sum()
		fmt.Printf("%x %v\n", s, c)
	}
}
