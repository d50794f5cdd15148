//go:build cgo

package main

/*
#include <malloc.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>

typedef struct { int dvType, dvK, dvB, testt, maski, maskb; uint32_t dm[80]; } vmon_dv;
extern vmon_dv sha1_dvs[] __attribute__((weak));
static vmon_dv save[65];
// No differences at all (on), or the table as it was (off).
static void inject(int on) {
	int i, n;
	uintptr_t pg = (uintptr_t)sysconf(_SC_PAGESIZE), p = (uintptr_t)sha1_dvs & ~(pg - 1);
	if (!sha1_dvs) return;
	for (n = 0; n < 64 && sha1_dvs[n].dvType; n++)
		if (sha1_dvs[n].dvType < 0 || sha1_dvs[n].dvType > 2 || sha1_dvs[n].maskb < 0 || sha1_dvs[n].maskb > 31) return;
	if (n != 32 || mprotect((void *)p, (uintptr_t)&sha1_dvs[n + 1] - p, PROT_READ | PROT_WRITE | PROT_EXEC)) return;
	if (on) memcpy(save, sha1_dvs, n * sizeof *save);
	for (i = 0; i < n; i++) {
		if (on) memset(sha1_dvs[i].dm, 0, sizeof sha1_dvs[i].dm);
		else memcpy(&sha1_dvs[i], &save[i], sizeof *save);
	}
}
static double used(void) { struct mallinfo2 m = mallinfo2(); return (double)m.uordblks + (double)m.hblkhd; }
*/
import "C"

const haveC = true

func injectC(on bool) {
	if on {
		C.inject(1)
	} else {
		C.inject(0)
	}
}

func cHeap() float64 { return float64(C.used()) }
