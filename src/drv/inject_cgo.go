//go:build cgo

package main

/*
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

// The C library's disturbance-vector table, when it has one under this name.
typedef struct { int dvType, dvK, dvB, testt, maski, maskb; uint32_t dm[80]; } vmon_dv;
extern vmon_dv sha1_dvs[] __attribute__((weak));

static int vmon_have(void) { return sha1_dvs != NULL; }

// Number of entries, or -1 when the table does not look as expected.
static int vmon_count(void) {
	int i;
	if (!vmon_have()) return -1;
	for (i = 0; i < 64; i++) {
		vmon_dv *d = &sha1_dvs[i];
		if (d->dvType == 0) return i;
		if (d->dvType < 1 || d->dvType > 2 || d->dvK < 30 || d->dvK > 70 || d->dvB < 0 || d->dvB > 31 ||
		    d->testt < 0 || d->testt > 79 || d->maski < 0 || d->maski > 3 || d->maskb < 0 || d->maskb > 31) return -1;
	}
	return -1;
}
static int vmon_rw(int n) {
	uintptr_t p = (uintptr_t)sha1_dvs, e = p + (uintptr_t)(n + 1) * sizeof(vmon_dv);
	uintptr_t pg = (uintptr_t)sysconf(_SC_PAGESIZE);
	p &= ~(pg - 1);
	return mprotect((void *)p, e - p, PROT_READ | PROT_WRITE | PROT_EXEC);
}
static void vmon_get(int i, vmon_dv *o) { memcpy(o, &sha1_dvs[i], sizeof *o); }
static void vmon_set(int i, const uint32_t *dm) { memcpy(sha1_dvs[i].dm, dm, 320); }
*/
import "C"

import "unsafe"

const cgoEnabled = true

var (
	cCount = -2
	cOrig  []dvDump
	cDirty bool
)

func cInit() {
	if cCount != -2 {
		return
	}
	cCount = int(C.vmon_count())
	for i := 0; i < cCount; i++ {
		var d C.vmon_dv
		C.vmon_get(C.int(i), &d)
		o := dvDump{uint32(d.dvType), uint32(d.dvK), uint32(d.dvB), uint32(d.testt), uint32(d.maski), uint32(d.maskb), nil}
		for j := 0; j < 80; j++ {
			o.Dm = append(o.Dm, uint32(d.dm[j]))
		}
		cOrig = append(cOrig, o)
	}
	if cCount > 0 && C.vmon_rw(C.int(cCount)) != 0 {
		cCount = -1
	}
}

func dumpC() []dvDump { cInit(); return cOrig }

func injectC(r int, dm *[80]uint32) bool {
	cInit()
	if cCount <= 0 {
		return false
	}
	d := w.DVs[r]
	for i := range cOrig {
		if int(cOrig[i].Type) == d[0] && int(cOrig[i].K) == d[1] && int(cOrig[i].B) == d[2] {
			C.vmon_set(C.int(i), (*C.uint32_t)(unsafe.Pointer(&dm[0])))
			cDirty = true
			return true
		}
	}
	return false
}

func restoreC() {
	if !cDirty {
		return
	}
	for i := range cOrig {
		C.vmon_set(C.int(i), (*C.uint32_t)(unsafe.Pointer(&cOrig[i].Dm[0])))
	}
	cDirty = false
}
