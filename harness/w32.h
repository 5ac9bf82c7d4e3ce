/* Force-included to select the library's 32-bit code paths on a 64-bit host. */
#include <stdint.h>
#undef SIZE_MAX
#define SIZE_MAX UINT32_MAX
