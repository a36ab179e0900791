#ifndef SCEN_UTIL_H
#define SCEN_UTIL_H
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* deterministic byte pattern k of a block */
static inline uint8_t pat(uint32_t seed, size_t i) { uint32_t x = seed * 2654435761u + (uint32_t)i * 40503u; x ^= x >> 13; return (uint8_t)(x * 31u + (x >> 8)); }
static inline void pat_fill(void *p, size_t n, uint32_t seed) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; i++) b[i] = pat(seed, i); }
static inline long pat_bad(const void *p, size_t n, uint32_t seed) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) if (b[i] != pat(seed, i)) return (long)i; return -1; }
static inline uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
#define LEAKCHECK(mark, cls) do { char lb_[600]; size_t lk_ = sim_heap_leaks(mark, lb_, sizeof lb_); \
    SIM_CHECK(!lk_, cls, "%zu block(s) never released:%s", lk_, lb_); } while (0)
#endif
