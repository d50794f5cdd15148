/* Drives the C library from a stream of operations on standard input and writes
 * one record per operation. Built hosted, with sanitizers, and freestanding for
 * targets that have no C library here (VMON_FREESTANDING, see fs/). */
#include "vmon.h"
#include "sha1.h"

typedef struct { int dvType, dvK, dvB, testt, maski, maskb; uint32_t dm[80]; } vmon_dv;
extern vmon_dv sha1_dvs[] __attribute__((weak));
void ubc_check(const uint32_t *, uint32_t *) __attribute__((weak));

/* The switches are not used by the Go package: one that is not there is not set. */
void SHA1DCSetSafeHash(SHA1_CTX *, int) __attribute__((weak));
void SHA1DCSetUseUBC(SHA1_CTX *, int) __attribute__((weak));
void SHA1DCSetUseDetectColl(SHA1_CTX *, int) __attribute__((weak));
void SHA1DCSetDetectReducedRoundCollision(SHA1_CTX *, int) __attribute__((weak));
static void (*opt(int w))(SHA1_CTX *, int) {
	switch (w) {
	case 0: return SHA1DCSetSafeHash;
	case 1: return SHA1DCSetUseUBC;
	case 2: return SHA1DCSetUseDetectColl;
	case 3: return SHA1DCSetDetectReducedRoundCollision;
	}
	return 0;
}

#define SLOTS 8
static SHA1_CTX *ctx[SLOTS];
static vmon_dv *tab, orig[64];
static int ndv;

static unsigned char inb[65536], outb[65536];
static long inn, inp, outn;

static void flush(void) { if (outn) vm_write(outb, outn); outn = 0; }
static void put(unsigned c) { if (outn == (long)sizeof outb) flush(); outb[outn++] = (unsigned char)c; }
static unsigned get(void) {
	if (inp == inn) { inn = vm_read(inb, sizeof inb); inp = 0; if (inn <= 0) vm_exit(3); }
	return inb[inp++];
}
static uint32_t get4(void) { uint32_t v = get() << 24; v |= get() << 16; v |= get() << 8; return v | get(); }
static void put4(uint32_t v) { put(v >> 24); put(v >> 16 & 255); put(v >> 8 & 255); put(v & 255); }

/* The table of disturbance vectors, if it looks the way we know it. */
static void table(void) {
	int i;
	tab = sha1_dvs;
	if (!tab) return;
	for (i = 0; i < 64 && tab[i].dvType; i++) {
		vmon_dv *d = &tab[i];
		if (d->dvType < 1 || d->dvType > 2 || d->dvK < 30 || d->dvK > 70 || d->testt < 0 || d->testt > 79 || d->maskb < 0 || d->maskb > 31) { tab = 0; return; }
	}
	if (i == 64) { tab = 0; return; }
	ndv = i;
	if (vm_rw(tab, (ndv + 1) * sizeof *tab)) { tab = 0; return; }
	for (i = 0; i < ndv; i++) orig[i] = tab[i];
}

int vm_main(void) {
	int i, j;
	static unsigned char out[20 + 64];
	for (i = 0; i < SLOTS; i++) ctx[i] = vm_alloc(sizeof *ctx[i]);
	table();
	for (;;) {
		unsigned op = get(), s, v;
		switch (op) {
		case 'D':
			put('D');
			for (i = v = 0; i < 4; i++) if (opt(i)) v |= 1u << i;
			put(v);
			put(tab ? ndv : 0);
			for (i = 0; tab && i < ndv; i++) { put(tab[i].dvType); put(tab[i].dvK); put(tab[i].dvB); put(tab[i].testt); put(tab[i].maskb); }
			break;
		case 'I': s = get(); SHA1DCInit(ctx[s]); put('I'); break;
		case 'P': { /* dirty memory: one byte throughout, or words each zero, small, all ones or anything */
			uint32_t x, k;
			unsigned char *q;
			s = get(); v = get(); x = get4(); q = (unsigned char *)ctx[s];
			for (k = 0; k < sizeof *ctx[s]; k++) q[k] = (unsigned char)v;
			for (k = 0; x && k + 4 <= sizeof *ctx[s]; k += 4) {
				uint32_t w;
				x = x * 1664525u + 1013904223u;
				w = (x >> 28) < 8 ? 0 : (x >> 28) < 11 ? 1 : (x >> 28) < 13 ? ~(uint32_t)0 : x;
				for (i = 0; i < 4; i++) q[k + i] = ((unsigned char *)&w)[i];
			}
			put('P');
			break;
		}
		case 'O':
			s = get(); i = (int)get(); j = (int)get4();
			if (opt(i)) opt(i)(ctx[s], j);
			put('O');
			break;
		case 'U': {
			uint32_t n, k;
			unsigned char *b, *d, *c;
			int ok = 1;
			s = get(); v = get(); n = get4();
			b = vm_alloc(n + v + 1);
			c = vm_alloc(n + 1);
			d = b + v;
			for (k = 0; k < n; k++) d[k] = c[k] = (unsigned char)get();
			if (n == 0) b[0] = 0;
			SHA1DCUpdate(ctx[s], (const char *)d, n);
			for (k = 0; k < n; k++) if (d[k] != c[k]) ok = 0;
			vm_free(c, n + 1);
			vm_free(b, n + v + 1);
			put('U'); put(ok);
			break;
		}
		case 'Z': { /* many updates with a buffer of zeros */
			static unsigned char zero[65536];
			uint32_t k, n;
			s = get(); k = get4(); n = get4();
			while (k--) SHA1DCUpdate(ctx[s], (const char *)zero, n);
			put('Z');
			break;
		}
		case 'F': {
			int ok = 1, r;
			s = get(); v = get() & 15;
			for (i = 0; i < (int)sizeof out; i++) out[i] = 0xC5;
			r = SHA1DCFinal(out + 32 + v, ctx[s]);
			put('F'); put(r != 0);
			for (i = 0; i < 20; i++) put(out[32 + v + i]);
			for (i = 0; i < (int)sizeof out; i++) if ((i < 32 + (int)v || i >= 52 + (int)v) && out[i] != 0xC5) ok = 0;
			put(ok);
			break;
		}
		case 'C': s = get(); v = get(); *ctx[v] = *ctx[s]; put('C'); break;
		case 'M': {
			uint32_t w[80], z[80], m[3] = {0xA1B2C3D4u, 0xFFFFFFFFu, 0xA1B2C3D4u};
			int ok = 1;
			for (i = 0; i < 80; i++) w[i] = z[i] = get4();
			if (!ubc_check) { put('M'); put(2); put4(0); break; }
			ubc_check(w, m + 1);
			for (i = 0; i < 80; i++) if (w[i] != z[i]) ok = 0;
			put('M'); put(ok && m[0] == 0xA1B2C3D4u && m[2] == 0xA1B2C3D4u); put4(m[1]);
			break;
		}
		case 'J': {
			int t = (int)get(), k = (int)get(), b = (int)get();
			uint32_t dm[80];
			for (i = 0; i < 80; i++) dm[i] = get4();
			for (i = 0; tab && i < ndv; i++)
				if (tab[i].dvType == t && tab[i].dvK == k && tab[i].dvB == b)
					for (j = 0; j < 80; j++) tab[i].dm[j] = dm[j];
			put('J');
			break;
		}
		case 'R':
			for (i = 0; tab && i < ndv; i++) for (j = 0; j < 80; j++) tab[i].dm[j] = orig[i].dm[j];
			put('R');
			break;
		case 'E': put('E'); flush(); return 0;
		default: return 3;
		}
	}
}
