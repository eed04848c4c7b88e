// Force-included in front of every source file of the code under test: the hash function and the random
// number generator are the environment stubs listed in DESIGN.md; everything else is the code as it is.
#pragma once
#ifndef LC_NO_SHIM
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stddef.h>
#include "dataStructure/hash/hash.h"
#include "utils/include/mymath.h"
#ifdef __cplusplus
extern "C" {
#endif
uint64_t lc_hash_hook(const void *key, uint64_t len, uint64_t real);
uint64_t lc_next_rand(void);
extern int lc_hash_real;
static inline uint64_t lc_real_hash_(const void *p, size_t n) { return lc_hash_real ? get_hash_value_str((void *)(uintptr_t)p, n) : 0; }
uint64_t lc_xxh_hook(const void *key, uint64_t len, uint64_t seed);
extern int lc_xxh_hooked;
static inline uint64_t lc_real_xxh64_(const void *p, size_t n, uint64_t seed) { return XXH64(p, n, seed); }
#ifdef __cplusplus
}
#endif
#undef XXH64
#define XXH64(p, n, seed) (lc_xxh_hooked ? lc_xxh_hook((p), (n), (seed)) : lc_real_xxh64_((p), (n), (seed)))
#undef get_hash_value_int_64
#undef get_hash_value_str
#define get_hash_value_int_64(p) lc_hash_hook((const void *)(p), sizeof(obj_id_t), lc_real_hash_((const void *)(p), sizeof(obj_id_t)))
#define get_hash_value_str(p, n) lc_hash_hook((const void *)(p), (n), lc_real_hash_((const void *)(p), (n)))
#define next_rand lc_next_rand
#if defined(__clang__) && !defined(__cplusplus)
// in the executor, what is printed to a file is formatted and written like any other bytes
#include <stdio.h>
#include <string.h>
static char lc_line_[4096];
#undef fprintf
#define fprintf(f, ...) ((f) != stderr && (f) != stdout ? (snprintf(lc_line_, sizeof lc_line_, __VA_ARGS__), (int)fwrite(lc_line_, 1, strlen(lc_line_), (f))) : 0)
#endif
#endif
