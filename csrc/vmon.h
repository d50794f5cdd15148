#ifndef VMON_H
#define VMON_H
#include <stddef.h>
#include <stdint.h>
long vm_read(void *, long);
void vm_write(const void *, long);
void vm_exit(int);
void *vm_alloc(size_t);
void vm_free(void *, size_t);
int vm_rw(void *, size_t);
int vm_main(void);
#endif
