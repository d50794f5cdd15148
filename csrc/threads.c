// The C library driven from several threads at once, each on its own context
// (and on private copies of one shared, read-only context). Results must be the
// ones obtained sequentially beforehand. Run under ThreadSanitizer.
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sha1.h"

#define NMSG 24
#define NTHR 8

static unsigned char *msg[NMSG];
static size_t len[NMSG];
static unsigned char want[NMSG][20], want2[NMSG][20];
static int wantc[NMSG], wantc2[NMSG];
static SHA1_CTX shared[NMSG]; // half the message absorbed; only ever copied
static long rounds;
static uint64_t seed;
static pthread_barrier_t bar;
static long events[NTHR], bad[NTHR];

static uint64_t rnd(uint64_t *s) {
	uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static int hash(int m, unsigned char *out, uint64_t *s) {
	SHA1_CTX c;
	size_t o = 0;
	SHA1DCInit(&c);
	while (o < len[m]) {
		size_t n = s ? rnd(s) % 200 + 1 : len[m];
		if (n > len[m] - o) n = len[m] - o;
		SHA1DCUpdate(&c, (const char *)msg[m] + o, n);
		o += n;
	}
	return SHA1DCFinal(out, &c);
}

static int finish(int m, unsigned char *out) {
	SHA1_CTX c;
	memcpy(&c, &shared[m], sizeof c);
	SHA1DCUpdate(&c, (const char *)msg[m] + len[m] / 2, len[m] - len[m] / 2);
	return SHA1DCFinal(out, &c);
}

static void *worker(void *a) {
	long id = (long)(intptr_t)a, r;
	uint64_t s = seed * 1000 + (uint64_t)id;
	unsigned char out[20];
	int c;
	pthread_barrier_wait(&bar);
	for (r = 0; r < rounds; r++) {
		int m = (int)(rnd(&s) % NMSG);
		if (rnd(&s) & 1) {
			c = hash(m, out, &s);
			if (memcmp(out, want[m], 20) || !c != !wantc[m]) bad[id]++;
		} else {
			c = finish(m, out);
			if (memcmp(out, want2[m], 20) || !c != !wantc2[m]) bad[id]++;
		}
		events[id]++;
	}
	return NULL;
}

int main(int argc, char **argv) {
	static const char *files[] = {"shattered-1.bin", "shattered-2.bin", "sha-mbles-1.bin", "sha-mbles-2.bin"};
	pthread_t t[NTHR];
	uint64_t s;
	long i, e = 0, b = 0;
	if (argc < 4) return 3;
	rounds = atol(argv[2]);
	seed = strtoull(argv[3], NULL, 10);
	s = seed;
	for (i = 0; i < NMSG; i++) {
		if (i < 4) {
			char p[4096];
			FILE *f;
			snprintf(p, sizeof p, "%s/%s", argv[1], files[i]);
			msg[i] = malloc(4096);
			f = fopen(p, "rb");
			if (!f) return 3;
			len[i] = fread(msg[i], 1, 4096, f);
			fclose(f);
		} else {
			size_t j;
			len[i] = rnd(&s) % 3000;
			msg[i] = malloc(len[i] + 1);
			for (j = 0; j < len[i]; j++) msg[i][j] = (unsigned char)rnd(&s);
		}
		wantc[i] = hash((int)i, want[i], NULL);
		SHA1DCInit(&shared[i]);
		SHA1DCUpdate(&shared[i], (const char *)msg[i], len[i] / 2);
		wantc2[i] = finish((int)i, want2[i]);
	}
	pthread_barrier_init(&bar, NULL, NTHR);
	for (i = 0; i < NTHR; i++)
		if (pthread_create(&t[i], NULL, worker, (void *)(intptr_t)i)) return 3;
	for (i = 0; i < NTHR; i++) pthread_join(t[i], NULL);
	for (i = 0; i < NTHR; i++) e += events[i], b += bad[i];
	printf("events %ld mismatches %ld\n", e, b);
	return 0;
}
