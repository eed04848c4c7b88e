// Harness interface. The same harness is executed symbolically (engine) and natively (replay).
#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t lc_sym(const char *name, int bits);                    // any value of that many bits
uint64_t lc_range(const char *name, uint64_t lo, uint64_t hi);  // any value in [lo, hi]
void lc_bytes(void *p, size_t n, const char *name);             // n arbitrary bytes
void lc_assume(bool c);
void lc_check_(bool c, const char *msg);
void lc_cover(const char *label);
void lc_observe(const char *label, uint64_t v);
uint64_t lc_concretize(uint64_t v);
void lc_done(void);
int lc_engine(void);
int64_t lc_param(const char *name, int64_t dflt);
const char *lc_sparam(const char *name, const char *dflt);
void lc_expect_abort(int on);
uint64_t lc_live(void);      // live heap objects (engine only; 0 natively)
void lc_print(const char *label, uint64_t v);
int lc_valid(const void *p, size_t n);
const char *lc_file(const char *name, const void *data, size_t len);  // create a file, returns its path
const char *lc_newfile(const char *name);                             // path of a file to be written
long lc_filesize(const char *path);
long lc_readfile(const char *path, void *buf, long cap);
#define lc_check(c, msg) lc_check_((c), (msg))
static inline uint64_t lc_choose(const char *name, uint64_t n) { return lc_concretize(lc_range(name, 0, n - 1)); }
void lc_main(void);
#ifdef __cplusplus
}
#endif
