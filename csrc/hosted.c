#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vmon.h"
long vm_read(void *p, long n) { return read(0, p, (size_t)n); }
void vm_write(const void *p, long n) {
	const char *q = p;
	while (n > 0) { long k = write(1, q, (size_t)n); if (k <= 0) _exit(3); q += k; n -= k; }
}
void vm_exit(int c) { _exit(c); }
void *vm_alloc(size_t n) { void *p = malloc(n); if (!p) _exit(3); return p; }
void vm_free(void *p, size_t n) { (void)n; free(p); }
int vm_rw(void *p, size_t n) {
	uintptr_t a = (uintptr_t)p, pg = (uintptr_t)sysconf(_SC_PAGESIZE), e = a + n;
	a &= ~(pg - 1);
	return mprotect((void *)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC);
}
int main(void) { return vm_main(); }
