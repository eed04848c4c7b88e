// T01: tracePrint prints the trace it is given, one request in a line.
// SOURCES: libCacheSim/bin/traceUtils/tracePrintMain.cpp libCacheSim/bin/traceUtils/cli_parser.cpp libCacheSim/bin/cli_reader_utils.c $VERIF/harness/fake/strings.cpp
// FLAGS: -ULOGLEVEL -DLOGLEVEL=8 -include $VERIF/harness/toolout.h -I$VERIF/harness/fake
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "tooltrace.h"
char lc_out[16384];
long lc_outlen;

static char *p;
static bool eat(const char *s) {
  size_t l = strlen(s);
  if (strncmp(p, s, l) != 0) return false;
  p += l;
  return true;
}
static bool num(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  return eat(b);
}
static bool snum(int64_t v) { return v < 0 ? eat("-") && num(-(uint64_t)v) : num((uint64_t)v); }
void lc_main(void) {
  int argc = 0;
  char *argv[16], b[32], delim[2] = ",";
  mktrace();
  argv[argc++] = strdup("tracePrint");
  argv[argc++] = strdup(tpath);
  argv[argc++] = strdup(ttype);
  if (tparams[0]) { argv[argc++] = strdup("-t"); argv[argc++] = strdup(tparams); }
  bool only = lc_param("opts", 1) && lc_choose("only", 2), id32 = lc_param("opts", 1) && lc_choose("32bit", 2), ign = lc_param("ign", 0) && lc_choose("ignore", 2);
  if (only) argv[argc++] = strdup("--obj-id-only=1");
  if (id32) argv[argc++] = strdup("--obj-id-32bit=1");
  if (ign) argv[argc++] = strdup("--ignore-obj-size=1");
  if (lc_param("opts", 1) && lc_choose("delimiter", 2)) { delim[0] = '|'; argv[argc++] = strdup("--field-delimiter=|"); }
  int cap = lc_param("cap", 0) ? (int)lc_choose("cap", (uint64_t)n + 2) - 1 : -1;
  if (cap == 0) cap = n + 3;
  if (cap > 0) { snprintf(b, sizeof b, "-n%d", cap); argv[argc++] = strdup(b); if (cap < n) n = cap; }
  argv[argc] = NULL;
  lc_check(tool_main(argc, argv) == 0, "the program fails");
  bool next = !strcmp(ttype, "oracleGeneral") || !strcmp(ttype, "lcs");
  p = lc_out;
  if (!only) lc_check(eat(next ? "# time,object,size,next_access_vtime\n" : "# time,object,size\n"), "the columns are not named");
  for (int i = 0; i < n; i++) {
    uint64_t id = id32 ? (uint32_t)ev[i].id : ev[i].id;
    if (!only) lc_check(num((uint64_t)ev[i].clock) && eat(delim), "the time of a request is printed wrong");
    lc_check(num(id), "the object of a request is printed wrong");
    if (!only) {
      lc_check(eat(delim), "the object of a request is printed wrong");
      lc_check(num((uint64_t)(ign ? 1 : ev[i].size)), "the size of a request is printed wrong");
      if (next) lc_check(eat(delim) && snum((int64_t)(ev[i].next == -1 && ttype[0] == 'o' ? INT64_MAX : ev[i].next)), "the next access of a request is printed wrong");
    }
    lc_check(eat("\n"), "a line has more than its request");
    lc_cover("line");
  }
  lc_check(*p == 0, "more requests are printed than the trace has");
  lc_done();
}
