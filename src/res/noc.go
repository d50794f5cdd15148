//go:build !cgo

package main

const haveC = false

func injectC(bool) {}

func cHeap() float64 { return 0 }
