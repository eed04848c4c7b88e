// A short trace in one of the formats the tools read; its events, its path, and how it is given on the command line.
#pragma once
#include <stdio.h>
#include <string.h>
#include "lc.h"

// the program's main
#ifdef __clang__
int tool_main(int argc, char **argv) __asm__("main");
#else
int tool_main(int argc, char **argv);
#endif

#define MAXN 16
static struct { uint64_t id; int64_t size, clock, next; int op, ttl; } ev[MAXN];
static int n;
static char tbuf[2048], tname[1100], tparams[128];
static long tlen;
static const char *tpath, *ttype;
static uint64_t (*hashes_)[2];
static int n_hashes_;
extern uint64_t (*lc_hash_fn)(const void *key, uint64_t l);
static uint64_t id_hash_(const void *key, uint64_t l) {
  uint64_t k = *(const uint64_t *)key;
  (void)l;
  for (int i = 0; i < n_hashes_; i++)
    if (hashes_[i][0] == k) return hashes_[i][1];
  hashes_[n_hashes_][0] = k;
  return hashes_[n_hashes_++][1] = lc_concretize(lc_range("hash", 1, 6));
}
// the sampler's choices: any hash value for each object
static inline void use_hashes(void) {
  hashes_ = calloc(MAXN, sizeof *hashes_);
  lc_hash_fn = id_hash_;
}
static void put_(const char *s) { strcpy(tbuf + tlen, s); tlen += (long)strlen(s); }
static void putn(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); put_(b); }
static int64_t digits_(const char *name, int k) {
  int64_t v = 0;
  for (int i = 0; i < k; i++) {
    int c = lc_param("plain", 0) ? '1' + (int)tlen % 9 : '0' + (int)lc_range(name, i == 0 ? 1 : 0, 9);
    tbuf[tlen++] = (char)c;
    v = v * 10 + (c - '0');
  }
  return v;
}
// times that never decrease: in the same window, at its edges, in a later one
static int64_t gapclock_(int i) {
  int64_t gap = lc_param("gap", 0), g[] = {0, gap - 1, gap, 2 * gap + 1};
  if (i == 0 || !gap) return 100;
  return ev[i - 1].clock + (lc_param("anygap", 0) ? (int64_t)lc_range("gap", 0, 3 * (uint64_t)gap) : g[lc_choose("gap", 4)]);
}
static inline void mktrace(void) {
  static const uint64_t IDS[][5] = {{1, 2, 3, 4, 5}, {0, 1, 0xffffffffffffffffull, 0x8000000000000000ull, 0x100000000ull}, {0x100000001ull, 1, 0xffffffffull, 0x7fffffffffffffffull, 10}, {101, 0x6500000000ull, 303, 404, 505}};
  const char *kind = lc_sparam("kind", "bin");
  bool bin = !strcmp(kind, "bin"), lcs = !strcmp(kind, "lcs"), cnt = !strcmp(kind, "csvcnt"), csv = cnt || !strcmp(kind, "csv"), txt = !strcmp(kind, "txt"), twr = !strcmp(kind, "twr");
  int used = 0, ids = (int)lc_param("ids", 0);
  n = (int)lc_param("n", 3);
  bool same = lc_param("samesize", 0);  // every object keeps its size
  int64_t sizes[MAXN];
  bool header = false;
  if (lcs) {
    *(uint64_t *)tbuf = 0x123456789abcdef0;
    strcpy(tbuf + 8, "<IQIq");
    tbuf[248] = 2; tbuf[249] = 3; tbuf[250] = 1; tbuf[252] = 4;
    *(uint32_t *)(tbuf + 1000) = 4;
    *(uint32_t *)(tbuf + 1004) = 24;
    *(uint64_t *)(tbuf + 1016) = 0x123456789abcdef0;
    tlen = 1024;
  }
  if (csv) {
    header = lc_choose("header", 2);
    if (header) put_(cnt ? "time,id,size,count\n" : "time,id,size\n");
  }
  int lines = n;
  for (int i = 0, l = 0; l < lines; i++, l++) {
    int k = (int)lc_choose("obj", (uint64_t)used + 1);
    if (k == used) used++;
    ev[i].id = IDS[ids][k];
    if (bin || lcs) {
      static const int64_t EDGE[] = {1, 0x7fffffff, 0x80000000, 0xffffffff};
      ev[i].clock = lc_param("edge", 0) ? EDGE[lc_choose("clock", 4)] : lc_param("plain", 0) ? 100 + 7 * i : (int64_t)lc_sym("clock", 32);
      if (lc_param("gap", 0)) ev[i].clock = gapclock_(i);
      ev[i].size = lc_param("edge", 0) ? EDGE[lc_choose("size", 4)] : lc_param("plain", 0) ? 10 + 3 * (same ? k : i) : (int64_t)lc_sym("size", 32);
      if (same && !lc_param("plain", 0)) {
        bool first = true;
        for (int j = 0; j < i; j++) if (ev[j].id == ev[i].id) first = false;
        if (!first) ev[i].size = sizes[k];
        sizes[k] = ev[i].size;
      }
      lc_assume(ev[i].size > 0);
      ev[i].next = (int64_t)lc_param("next", -1);
      *(uint32_t *)(tbuf + tlen) = (uint32_t)ev[i].clock;
      *(uint64_t *)(tbuf + tlen + 4) = ev[i].id;
      *(uint32_t *)(tbuf + tlen + 12) = (uint32_t)ev[i].size;
      *(int64_t *)(tbuf + tlen + 16) = ev[i].next;
      tlen += 24;
    } else if (twr) {
      static const int TTL[] = {0, 5, 0xffffff};
      ev[i].clock = gapclock_(i);
      ev[i].size = 10 + 3 * i;
      static const int OP[] = {0, 1, 3, 5, 6, 9, 14, 15, 16, 255};
      int ops = (int)lc_param("ops", 1);
      ev[i].op = ops == 2 ? (int)lc_range("op", 0, 255) : ops ? OP[lc_choose("op", 10)] : 3;
      ev[i].ttl = lc_param("ttls", 0) ? TTL[lc_choose("ttl", 3)] : 7;
      *(uint32_t *)(tbuf + tlen) = (uint32_t)ev[i].clock;
      *(uint64_t *)(tbuf + tlen + 4) = ev[i].id;
      *(uint32_t *)(tbuf + tlen + 12) = 1u << 22 | (uint32_t)(ev[i].size - 1);
      *(uint32_t *)(tbuf + tlen + 16) = (uint32_t)ev[i].op << 24 | (uint32_t)ev[i].ttl;
      tlen += 20;
    } else if (csv) {
      if (lc_param("gap", 0)) putn((uint64_t)(ev[i].clock = gapclock_(i)));
      else ev[i].clock = digits_("clock", (int)lc_param("timedigits", 1));
      put_(",");
      putn(ev[i].id);
      put_(",");
      ev[i].size = digits_("size", (int)lc_param("sizedigits", 1));
      if (cnt) {
        int c = 1 + (int)lc_choose("count", 3);
        put_(",");
        putn((uint64_t)c);
        for (; c > 1; c--, i++, n++) ev[i + 1] = ev[i];
      }
    } else {
      ev[i].clock = 0;
      ev[i].size = 1;
      putn(ev[i].id);
    }
    if (csv || txt) if (l < lines - 1 || lc_choose("newline", 2)) put_("\n");
  }
  ttype = bin ? "oracleGeneral" : twr ? "twr" : lcs ? "lcs" : csv ? "csv" : "txt";
  if (csv) {
    strcpy(tparams, "time-col=1,obj-id-col=2,obj-size-col=3,obj-id-is-num=true,delimiter=,,");
    if (cnt) strcat(tparams, "cnt-col=4,");
    strcat(tparams, "has-header=");
    strcat(tparams, header ? "true" : "false");
  }
  if (txt) strcpy(tparams, "obj-id-is-num=true");
  // a path of any length the file system allows
  int len = (int)lc_param("pathlen", 0);
  strcpy(tname, "trace");
  tpath = lc_newfile(tname);
  int room = len - (int)strlen(tpath);
  strcpy(tname, "");
  for (int i = 0; i < room; i++) strcat(tname, i % 100 == 50 ? "/" : "d");
  strcat(tname, "trace");
  tpath = strdup(lc_file(tname, tbuf, (size_t)tlen));
}
