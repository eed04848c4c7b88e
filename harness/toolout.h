// force-included in front of a program: what it prints is kept
#pragma once
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
#include <string>  // takes away macros of these names
#endif
#ifdef __cplusplus
extern "C" {
#endif
extern char lc_out[16384];
extern long lc_outlen;
static char lc_line_[4096];
static inline int lc_keep_(void) {
  size_t l = strlen(lc_line_);
  if (lc_outlen + (long)l < (long)sizeof lc_out) { memcpy(lc_out + lc_outlen, lc_line_, l + 1); lc_outlen += (long)l; }
  return (int)l;
}
#ifdef __cplusplus
}
#endif
#undef printf
#define printf(...) (snprintf(lc_line_, sizeof lc_line_, __VA_ARGS__), lc_keep_())
