//go:build unix

package main

import (
	"fmt"
	"syscall"
)

const gran = 65536 // covers every page size in use

type arena struct{ m []byte }

func newArena(n int) *arena {
	n = (n + gran - 1) &^ (gran - 1)
	m, err := syscall.Mmap(-1, 0, n+3*gran, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(fmt.Sprintf("mmap: %v", err))
	}
	a := &arena{m}
	a.mp(m[:gran], 0)
	a.mp(m[len(m)-2*gran:], 0)
	return a
}

func (a *arena) mp(b []byte, prot int) {
	if err := syscall.Mprotect(b, prot); err != nil {
		panic(fmt.Sprintf("mprotect: %v", err))
	}
}
func (a *arena) data() []byte { return a.m[gran : len(a.m)-2*gran] }
func (a *arena) size() int    { return len(a.m) - 3*gran }

func (a *arena) place(p []byte, atEnd bool) []byte {
	d := a.data()
	off := 0
	if atEnd {
		off = len(d) - len(p)
	}
	q := d[off : off+len(p) : off+len(p)]
	copy(q, p)
	return q
}

// beyond gives q, placed at the end, a capacity that reaches into the
// inaccessible page: bytes it does not hold cannot be read through it.
func (a *arena) beyond(q []byte) []byte {
	b := a.m[:len(a.m)-gran]
	o := len(b) - gran - len(q)
	return b[o : o+len(q)]
}

func (a *arena) protect(ro bool) {
	if ro {
		a.mp(a.data(), syscall.PROT_READ)
	} else {
		a.mp(a.data(), syscall.PROT_READ|syscall.PROT_WRITE)
	}
}
func (a *arena) free() { syscall.Munmap(a.m) }

// mapZero maps n read-only bytes, zero but for p at offset off.
func mapZero(n int, p []byte, off int) []byte {
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(fmt.Sprintf("mmap: %v", err))
	}
	if len(p) > 0 {
		copy(m[off:], p)
	}
	if err := syscall.Mprotect(m, syscall.PROT_READ); err != nil {
		panic(fmt.Sprintf("mprotect: %v", err))
	}
	return m
}
func unmap(b []byte) { syscall.Munmap(b) }
