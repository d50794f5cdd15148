/* Just enough of a C library to run cdrv.c on targets that have none here. */
#include "vmon.h"

#if defined(__s390x__)
static long sys3(long n, long a, long b, long c) {
	register long r1 __asm__("r1") = n;
	register long r2 __asm__("r2") = a;
	register long r3 __asm__("r3") = b;
	register long r4 __asm__("r4") = c;
	__asm__ volatile("svc 0" : "+r"(r2) : "r"(r1), "r"(r3), "r"(r4) : "memory");
	return r2;
}
enum { SYS_exit = 1, SYS_read = 3, SYS_write = 4, SYS_mprotect = 125 };
__asm__(".globl _start\n_start:\n aghi %r15,-160\n brasl %r14,vm_start\n");
#elif defined(__mips__)
static long sys3(long n, long a, long b, long c) {
	register long r2 __asm__("$2") = n;
	register long r4 __asm__("$4") = a;
	register long r5 __asm__("$5") = b;
	register long r6 __asm__("$6") = c;
	register long r7 __asm__("$7");
	__asm__ volatile("syscall" : "+r"(r2), "=r"(r7) : "r"(r4), "r"(r5), "r"(r6)
	                 : "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
	return r7 ? -1 : r2;
}
enum { SYS_exit = 4001, SYS_read = 4003, SYS_write = 4004, SYS_mprotect = 4125 };
__asm__(".set noreorder\n.globl __start\n.globl _start\n__start:\n_start:\n addiu $29,$29,-64\n li $8,-16\n and $29,$29,$8\n jal vm_start\n nop\n.set reorder\n");
#elif defined(__powerpc64__)
static long sys3(long n, long a, long b, long c) {
	register long r0 __asm__("r0") = n;
	register long r3 __asm__("r3") = a;
	register long r4 __asm__("r4") = b;
	register long r5 __asm__("r5") = c;
	__asm__ volatile("sc" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "r6", "r7", "r8", "r9", "r10", "r11", "r12", "cr0", "memory");
	return r3;
}
enum { SYS_exit = 1, SYS_read = 3, SYS_write = 4, SYS_mprotect = 125 };
__asm__(".globl _start\n.type _start,@function\n_start:\n bcl 20,31,1f\n1: mflr 2\n addis 2,2,.TOC.-1b@ha\n addi 2,2,.TOC.-1b@l\n stdu 1,-128(1)\n bl vm_start\n nop\n");
#elif defined(__riscv)
static long sys3(long n, long a, long b, long c) {
	register long a7 __asm__("a7") = n;
	register long a0 __asm__("a0") = a;
	register long a1 __asm__("a1") = b;
	register long a2 __asm__("a2") = c;
	__asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory");
	return a0;
}
enum { SYS_exit = 93, SYS_read = 63, SYS_write = 64, SYS_mprotect = 226 };
__asm__(".globl _start\n_start:\n addi sp,sp,-64\n andi sp,sp,-16\n call vm_start\n");
#elif defined(__i386__)
static long sys3(long n, long a, long b, long c) {
	long r;
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
	return r;
}
enum { SYS_exit = 1, SYS_read = 3, SYS_write = 4, SYS_mprotect = 125 };
__asm__(".globl _start\n_start:\n and $-16,%esp\n call vm_start\n");
#endif

long vm_read(void *p, long n) { return sys3(SYS_read, 0, (long)p, n); }
void vm_write(const void *p, long n) {
	const char *q = p;
	while (n > 0) { long k = sys3(SYS_write, 1, (long)q, n); if (k <= 0) vm_exit(3); q += k; n -= k; }
}
void vm_exit(int c) { for (;;) sys3(SYS_exit, c, 0, 0); }
void abort(void) { vm_exit(134); }

static unsigned char heap[1 << 24];
static size_t top;
void *vm_alloc(size_t n) { void *p; n = (n + 63) & ~(size_t)63; if (top + n > sizeof heap) vm_exit(3); p = heap + top; top += n; return p; }
void vm_free(void *p, size_t n) { n = (n + 63) & ~(size_t)63; if ((unsigned char *)p + n == heap + top) top -= n; }
int vm_rw(void *p, size_t n) {
	uintptr_t a = (uintptr_t)p & ~(uintptr_t)4095, e = ((uintptr_t)p + n + 4095) & ~(uintptr_t)4095;
	return (int)sys3(SYS_mprotect, (long)a, (long)(e - a), 7);
}
void *memcpy(void *d, const void *s, size_t n) { volatile unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t n) {
	volatile unsigned char *a = d; const unsigned char *b = s;
	if ((uintptr_t)a < (uintptr_t)b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n];
	return d;
}
void *memset(void *d, int c, size_t n) { volatile unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
void vm_start(void) { vm_exit(vm_main()); }
