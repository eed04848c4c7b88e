// T01: traceConv writes the trace it is given, in order, with the time of each object's next request.
// SOURCES: libCacheSim/bin/traceUtils/traceConvMain.cpp libCacheSim/bin/traceUtils/traceConv.cpp libCacheSim/bin/traceUtils/cli_parser.cpp libCacheSim/bin/cli_reader_utils.c $VERIF/harness/fake/strings.cpp
// FLAGS: -ULOGLEVEL -DLOGLEVEL=8 -I$VERIF/harness/fake
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "tooltrace.h"

void lc_main(void) {
  int argc = 0;
  char *argv[16], out[1300];
  mktrace();
  argv[argc++] = strdup("traceConv");
  argv[argc++] = strdup(tpath);
  argv[argc++] = strdup(ttype);
  if (tparams[0]) { argv[argc++] = strdup("-t"); argv[argc++] = strdup(tparams); }
  bool given = lc_param("out", 1) && lc_choose("output", 2), txt = lc_param("txt", 0) && lc_choose("txt", 2), keep = lc_param("resize", 0) && lc_choose("keepsize", 2);
  bool ign = lc_param("ign", 0) && lc_choose("ignore", 2), part = lc_param("spatial", 0);
  if (given) {
    strcpy(out, lc_newfile("converted"));
    argv[argc++] = strdup("-o");
    argv[argc++] = strdup(out);
  } else {
    strcpy(out, tpath);
    strcat(out, ".oracleGeneral");
  }
  if (txt) argv[argc++] = strdup("--output-txt=true");
  if (keep) argv[argc++] = strdup("--remove-size-change=1");
  if (ign) argv[argc++] = strdup("--ignore-obj-size=yes");
  if (part) {
    use_hashes();
    argv[argc++] = strdup("--sample-ratio=0.5");
  }
  argv[argc] = NULL;
  tool_main(argc, argv);

  static char got[24 * MAXN + 24], back[24 * MAXN + 24];
  long l = lc_readfile(tpath, back, sizeof back);
  lc_check(lc_filesize(tpath) == tlen && l == (tlen < (long)sizeof back ? tlen : (long)sizeof back) && memcmp(back, tbuf, (size_t)l) == 0, "the conversion changes its input");
  l = lc_readfile(out, got, sizeof got);
  lc_check(l >= 0, "the converted trace is not where it was asked for");
  lc_check(l % 24 == 0, "the converted trace is not a sequence of records");
  int m = (int)(l / 24);
  if (part) {
    int k = 0;
    for (int i = 0; i < n; i++) {
      bool in = false;
      for (int j = 0; j < m; j++) in = in || *(uint64_t *)(got + 24 * j + 4) == ev[i].id;
      lc_cover(in ? "kept" : "dropped");
      if (in) ev[k++] = ev[i];
    }
    n = k;
  }
  lc_check(m == n, "the converted trace has a wrong number of requests");
  for (int i = 0; i < n; i++) {
    int next = -1, first = i;
    for (int j = n - 1; j > i; j--) if (ev[j].id == ev[i].id) next = j;
    for (int j = i; j >= 0; j--) if (ev[j].id == ev[i].id) first = j;
    char *r = got + 24 * i;
    lc_check(*(uint64_t *)(r + 4) == ev[i].id, "a converted request is for another object");
    lc_check(*(uint32_t *)r == (uint32_t)ev[i].clock, "a converted request has another time");
    lc_check(*(uint32_t *)(r + 12) == (uint32_t)(ign ? 1 : ev[keep ? first : i].size), "a converted request has another size");
    lc_check(*(int64_t *)(r + 16) == (next < 0 ? -1 : next + 1), "the next access of a converted request is wrong");
    lc_cover(next < 0 ? "last" : "again");
  }
  if (txt) {
    static char t[4096];
    strcat(out, ".txt");
    long tl = lc_readfile(out, t, sizeof t - 1);
    lc_check(tl >= 0, "there is no text output");
    t[tl] = 0;
    char *p = t;
    for (int i = 0; i < n; i++) {
      lc_check(strtoull(p, &p, 10) == *(uint32_t *)(got + 24 * i) && *p++ == ',' && strtoull(p, &p, 10) == *(uint64_t *)(got + 24 * i + 4) && *p++ == ',' &&
               strtoull(p, &p, 10) == *(uint32_t *)(got + 24 * i + 12) && *p++ == ',' && strtoll(p, &p, 10) == *(int64_t *)(got + 24 * i + 16) && *p++ == '\n', "the text output is not that of the converted trace");
    }
    lc_check(*p == 0, "the text output has more lines than the converted trace");
    lc_cover("text");
    out[strlen(out) - 4] = 0;
  }
  strcat(out, ".reverse");
  lc_check(lc_filesize(out) < 0, "a temporary file is left behind");
  lc_done();
}
