// U02: the whole program cachesim, from its command line to the file it writes, under every schedule of its threads.
// SOURCES: libCacheSim/bin/cachesim/main.c libCacheSim/bin/cachesim/sim.c libCacheSim/bin/cachesim/cli_parser.c libCacheSim/bin/cli_reader_utils.c
// FLAGS: -UENABLE_GLCACHE -Dmain=cachesim_main
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "cachemk.h"
#include "include/libCacheSim/reader.h"

int cachesim_main(int argc, char **argv);

#define MAXN 16
static struct { uint64_t id; int64_t size, clock; } ev[MAXN];
static int n;
static char fname[300], *base_name;
static const char *mktrace(void) {
  char buf[24 * MAXN];
  int used = 0, smin = (int)lc_param("smin", 1), smax = (int)lc_param("smax", 1);
  int64_t size_of[MAXN], clock = lc_param("start", 5);
  n = (int)lc_param("n", 4);
  for (int i = 0; i < n; i++) {
    int k = (int)lc_choose("obj", (uint64_t)used + 1);
    if (k == used) { size_of[k] = smin == smax ? smin : smin + (int64_t)lc_choose("size", (uint64_t)(smax - smin + 1)); used++; }
    if (i && lc_param("clocks", 0)) clock += (int64_t)lc_choose("gap", 3);
    ev[i].id = 17 + 101 * (uint64_t)k;
    ev[i].size = size_of[k] * lc_param("unit", 1);
    ev[i].clock = clock;
    uint32_t t = (uint32_t)clock, s = (uint32_t)ev[i].size;
    int64_t next = -1;
    memcpy(buf + 24 * i, &t, 4);
    memcpy(buf + 24 * i + 4, &ev[i].id, 8);
    memcpy(buf + 24 * i + 12, &s, 4);
    memcpy(buf + 24 * i + 16, &next, 8);
  }
  // a file name of any length the file system allows
  int len = (int)lc_param("namelen", 23);
  strcpy(fname, "data/trace.");
  while ((int)strlen(fname) < len + 5 - 17) strcat(fname, "x");
  strcat(fname, "oracleGeneral.bin");
  base_name = fname + 5;
  return lc_file(fname, buf, 24 * (size_t)n);
}
// the number that follows a text
static double after(const char *line, const char *text, const char **end) {
  const char *p = strstr(line, text);
  lc_check(p != NULL, "a line of the report lacks one of its numbers");
  char *e;
  double v = strtod(p + strlen(text), &e);
  lc_check(e != p + strlen(text), "a number is missing in the report");
  *end = e;
  return v;
}
static void check_line(const char *line, const char *algo, int64_t size, int64_t wsec, int64_t cap, bool ign, int bytes) {
  cache_t *c = mkcache(algo, size, NULL, 0);
  request_t *q = mkreq(0, 1);
  int64_t req = 0, miss = 0;
  double reqb = 0, missb = 0;
  set_rand_seed(0);
  for (int i = 0; i < n && (cap <= 0 || i < cap); i++) {
    q->obj_id = ev[i].id;
    q->obj_size = ign ? 1 : ev[i].size;
    q->clock_time = ev[i].clock - ev[0].clock;
    bool hit = c->get(c, q);
    if (q->clock_time < wsec) { lc_cover("warm-up"); continue; }
    req++;
    reqb += (double)q->obj_size;
    if (!hit) { miss++; missb += (double)q->obj_size; }
    else lc_cover("hit");
  }
  const char *e, *m;
  char name[80] = " ";
  strcat(name, c->cache_name);
  strcat(name, " cache size ");
  const char *at = strstr(line, name);
  lc_check(at != NULL, "the report does not name its cache");
  double v = after(at, " cache size ", &e), unit = e[0] == 'K' ? 1024 : e[0] == 'M' ? 1024 * 1024 : e[0] == 'G' ? 1024.0 * 1024 * 1024 : 1;
  lc_check(unit == 1 ? v == (double)size : fabs(v * unit - (double)size) <= unit, "the reported cache size is wrong");
  const char *r = strstr(e, ", ");
  lc_check(r != NULL && strtol(r + 2, NULL, 10) == req, "the number of requests is wrong");
  lc_assume(req > 0);
  v = after(at, "miss ratio ", &m);
  lc_check(fabs(v - (double)miss / (double)req) < 0.000051, "the miss ratio is not that of the cache");
  if (bytes) {
    v = after(m, "byte miss ratio ", &m);
    lc_check(fabs(v - missb / reqb) < 0.000051, "the byte miss ratio is not that of the cache");
  }
  free_request(q);
  c->cache_free(c);
}
void lc_main(void) {
  const char *algos = lc_sparam("algos", "lru");
  int nsz = (int)lc_param("sizes", 1), nal = 1, argc = 0, wsec = -1, cap = -1;
  int64_t base = lc_param("size", 2);
  char s[64] = "", b[32], *argv[16];
  bool ign = false;
  const char *path = mktrace();
  for (const char *p = algos; *p; p++) nal += *p == ',';
  for (int i = 0; i < nsz; i++) { snprintf(b, sizeof b, i ? ",%d%s" : "%d%s", (int)base + i, lc_sparam("suffix", "")); strcat(s, b); }
  int64_t mul = !strcmp(lc_sparam("suffix", ""), "kb") ? 1024 : 1;
  argv[argc++] = strdup("cachesim");
  argv[argc++] = strdup(path);
  argv[argc++] = strdup("oracleGeneral");
  argv[argc++] = strdup(algos);
  argv[argc++] = strdup(s);
  snprintf(b, sizeof b, "--num-thread=%d", (int)lc_param("threads", 2));
  argv[argc++] = strdup(b);
  if (lc_param("warm", 0) && lc_choose("warm", 2)) { wsec = (int)lc_choose("seconds", 4); snprintf(b, sizeof b, "--warmup-sec=%d", wsec); argv[argc++] = strdup(b); }
  if (lc_param("cap", 0) && lc_choose("capped", 2)) { cap = 1 + (int)lc_choose("cap", (uint64_t)n); snprintf(b, sizeof b, "--num-req=%d", cap); argv[argc++] = strdup(b); }
  if (lc_param("ign", 0) && lc_choose("ignore", 2)) { ign = true; argv[argc++] = strdup("--ignore-obj-size=1"); }
  argv[argc] = NULL;
  lc_check(cachesim_main(argc, argv) == 0, "the program fails");
  static char out[8192];
  char rep[300];
  if (nal * nsz == 1) snprintf(rep, 128, "%s.cachesim", base_name);
  else snprintf(rep, sizeof rep, "result/%s", base_name);
  long l = lc_readfile(rep, out, sizeof out - 1);
  lc_check(l > 0, "no report was written");
  out[l] = 0;
  char *p = out, list[128], *rest = list;
  strcpy(list, algos);
  for (int i = 0; i < nal; i++) {
    char *algo = strsep(&rest, ",");
    for (int j = 0; j < nsz; j++) {
      char *line = strsep(&p, "\n");
      lc_check(line != NULL, "the report lacks a cache");
      check_line(line, algo, (base + j) * mul, wsec, cap, ign, nal * nsz > 1);
    }
  }
  while (p && *p == '\n') p++;
  lc_check(p == NULL || *p == 0, "the report has more lines than caches");
  lc_done();
}
