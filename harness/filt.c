// T01: traceFilter writes exactly the requests its cache misses.
// SOURCES: libCacheSim/bin/traceUtils/traceFilterMain.cpp libCacheSim/bin/traceUtils/cli_parser.cpp libCacheSim/bin/cli_reader_utils.c $VERIF/harness/fake/strings.cpp
// FLAGS: -ULOGLEVEL -DLOGLEVEL=8 -I$VERIF/harness/fake
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "tooltrace.h"
#include "cachemk.h"

void lc_main(void) {
  int argc = 0;
  char *argv[16], out[1300], b[64];
  const char *algo = lc_sparam("algo", "fifo");
  mktrace();
  argv[argc++] = strdup("traceFilter");
  argv[argc++] = strdup(tpath);
  argv[argc++] = strdup(ttype);
  if (tparams[0]) { argv[argc++] = strdup("-t"); argv[argc++] = strdup(tparams); }
  bool given = lc_choose("output", 2), ign = lc_param("ign", 0) && lc_choose("ignore", 2);
  snprintf(b, sizeof b, "--filter-type=%s", algo);
  argv[argc++] = strdup(b);
  // an absolute size, or a fraction of the working set
  static const struct { const char *s; double f; } FR[] = {{"0.5", 0.5}, {"0.25", 0.25}, {"0.75", 0.75}};
  int64_t wss = 0, size;
  for (int i = 0; i < n; i++) {
    bool first = true;
    for (int j = 0; j < i; j++) if (ev[j].id == ev[i].id) first = false;
    if (first) wss += ign ? 1 : ev[i].size;
  }
  if (lc_param("frac", 0)) {
    int k = (int)lc_choose("fraction", 3);
    snprintf(b, sizeof b, "--filter-size=%s", FR[k].s);
    size = (int64_t)(FR[k].f * (double)wss);
  } else {
    size = 1 + (int64_t)lc_choose("size", (uint64_t)lc_param("maxsize", 3));
    if (!ign) size *= lc_param("unit", 1);
    snprintf(b, sizeof b, "--filter-size=%lld", (long long)size);
  }
  argv[argc++] = strdup(b);
  if (ign) argv[argc++] = strdup("--ignore-obj-size=1");
  if (given) {
    strcpy(out, lc_newfile("filtered"));
    argv[argc++] = strdup("-o");
    argv[argc++] = strdup(out);
  } else {
    const char *base = strrchr(tpath, '/') + 1;
    snprintf(out, sizeof out, "%s.filter_%s_%lld.oracleGeneral", base, algo, (long long)size);
  }
  argv[argc] = NULL;
  lc_check(tool_main(argc, argv) == 0, "the program fails");
  static char got[24 * MAXN + 24];
  long l = lc_readfile(out, got, sizeof got);
  lc_check(l >= 0, "the filtered trace is not where it was asked for");
  cache_t *c = mkcache(algo, size, NULL, 0);
  request_t *q = mkreq(0, 1);
  int m = 0;
  for (int i = 0; i < n; i++) {
    q->obj_id = ev[i].id;
    q->obj_size = ign ? 1 : ev[i].size;
    q->clock_time = ev[i].clock - ev[0].clock;
    if (c->get(c, q)) { lc_cover("hit"); continue; }
    char *r = got + 24 * m++;
    lc_check(24 * m <= l, "a request that misses is not in the output");
    lc_check(*(uint64_t *)(r + 4) == ev[i].id, "the output is not the sequence of requests that miss");
    lc_check(*(uint32_t *)r == (uint32_t)(ev[i].clock - ev[0].clock), "a request in the output has another time");
    lc_check(*(uint32_t *)(r + 12) == (uint32_t)q->obj_size, "a request in the output has another size");
  }
  lc_check(24 * m == l, "the output has requests that hit");
  lc_done();
}
