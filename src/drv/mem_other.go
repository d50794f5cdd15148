//go:build !unix

package main

// Without memory mappings: ordinary memory, no guard pages.

type arena struct{ m []byte }

func newArena(n int) *arena             { return &arena{make([]byte, (n+65535)&^65535)} }
func (a *arena) data() []byte           { return a.m }
func (a *arena) size() int              { return len(a.m) }
func (a *arena) protect(bool)           {}
func (a *arena) free()                  {}
func (a *arena) beyond(q []byte) []byte { return q }
func unmap([]byte)                      {}

func (a *arena) place(p []byte, atEnd bool) []byte {
	off := 0
	if atEnd {
		off = len(a.m) - len(p)
	}
	q := a.m[off : off+len(p) : off+len(p)]
	copy(q, p)
	return q
}

func mapZero(n int, p []byte, off int) []byte {
	m := make([]byte, n)
	copy(m[off:], p)
	return m
}
