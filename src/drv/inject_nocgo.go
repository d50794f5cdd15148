//go:build !cgo

package main

const cgoEnabled = false

func injectC(r int, dm *[80]uint32) bool { return false }
func restoreC()                          {}
func dumpC() []dvDump                    { return nil }
