#include <stddef.h>
#include <stdint.h>
