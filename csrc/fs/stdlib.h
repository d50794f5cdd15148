#include <stddef.h>
void abort(void);
