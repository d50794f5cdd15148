// Command hwp says whether this (disguised) arm64 processor lacks the SHA-1
// instructions in every way a program can ask, and that the standard library
// then does without them.
package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"os"
)

func main() {
	b, err := os.ReadFile("/proc/self/auxv")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	seen := false
	for ; len(b) >= 16; b = b[16:] {
		if binary.NativeEndian.Uint64(b) != 16 {
			continue
		}
		seen = true
		if v := binary.NativeEndian.Uint64(b[8:]); v&(1<<5|1<<11) != 0 {
			fmt.Printf("hwcap %x\n", v)
			os.Exit(1)
		}
	}
	if !seen || fmt.Sprintf("%x", sha1.Sum([]byte("abc"))) != "a9993e364706816aba3e25717850c26c9cd0d89d" {
		fmt.Println("no")
		os.Exit(1)
	}
	fmt.Println("no-sha1 ok")
}
