#include <stdint.h>
uint32_t vp_memory_size(int m);
int32_t vp_memory_grow(int m, uint32_t n);
