// T01: distUtil writes the reuse distances of the trace it is given.
// SOURCES: libCacheSim/bin/distUtil/main.c libCacheSim/bin/distUtil/cli.c libCacheSim/bin/cli_reader_utils.c
// FLAGS: -ULOGLEVEL -DLOGLEVEL=8
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "tooltrace.h"

static int64_t dist(int type, int i) {
  int prev = -1, next = -1, first = i;
  for (int j = 0; j < i; j++) if (ev[j].id == ev[i].id) prev = j;
  for (int j = n - 1; j > i; j--) if (ev[j].id == ev[i].id) next = j;
  for (int j = i; j >= 0; j--) if (ev[j].id == ev[i].id) first = j;
  if (type == 0) return prev < 0 ? -1 : i - prev;
  if (type == 1) return prev < 0 ? -1 : i - first;
  int a = type == 2 ? prev : i, b = type == 2 ? i : next, c = 0;
  if (a < 0 || b < 0) return -1;
  for (int k = a + 1; k < b; k++) {
    bool seen = false;
    for (int j = a + 1; j < k; j++) seen = seen || ev[j].id == ev[k].id;
    c += !seen;
  }
  return c;
}
void lc_main(void) {
  static const char *T[] = {"dist_since_last_access", "dist_since_first_access", "stack_dist", "future_stack_dist"};
  static const char *S[] = {"DIST_SINCE_LAST_ACCESS", "DIST_SINCE_FIRST_ACCESS", "STACK_DIST", "FUTURE_STACK_DIST"};
  static const char *O[] = {"binary", "txt", "cntTxt"};
  int argc = 0;
  char *argv[16], b[32];
  static char out[5000], got[8192];
  mktrace();
  int type = (int)lc_choose("type", 4), form = (int)lc_choose("form", 3);
  int olen = (int)lc_param("outlen", 0);
  strcpy(out, lc_newfile("x"));
  for (int k = (int)strlen(out); k < olen; k++) strcat(out, k % 100 == 99 && k < olen - 1 ? "/" : "y");
  if (olen) strcpy(out, lc_newfile(out + strlen(lc_newfile("x")) - 1));
  argv[argc++] = strdup("distUtil");
  argv[argc++] = strdup(tpath);
  argv[argc++] = strdup(ttype);
  argv[argc++] = strdup(T[type]);
  argv[argc++] = strdup(O[form]);
  bool named = !lc_param("unnamed", 0) || lc_choose("named", 2);
  argv[argc++] = strdup(named ? out : "");
  if (!named) strcpy(out, strrchr(tpath, '/') + 1), strcat(out, ".dist");
  if (tparams[0]) { argv[argc++] = strdup("-t"); argv[argc++] = strdup(tparams); }
  int cap = lc_param("cap", 0) ? (int)lc_choose("cap", (uint64_t)n + 2) : 0;
  if (cap > 0) { snprintf(b, sizeof b, "--num-req=%d", cap); argv[argc++] = strdup(b); if (cap < n) n = cap; }
  argv[argc] = NULL;
  lc_check(tool_main(argc, argv) == 0, "the program fails");
  strcat(out, ".");
  strcat(out, S[type]);
  strcat(out, form == 0 ? "" : form == 1 ? ".txt" : ".cnt");
  long l = lc_readfile(out, got, sizeof got - 1);
  lc_check(l >= 0, "the distances are not where they were asked for");
  got[l] = 0;
  char *p = got;
  if (form == 0) {
    lc_check(l == 4 * n, "the number of distances is not the number of requests");
    for (int i = 0; i < n; i++) lc_check(((int32_t *)got)[i] == dist(type, i), "a distance is wrong");
  } else if (form == 1) {
    for (int i = 0; i < n; i++) {
      lc_check(strtoll(p, &p, 10) == dist(type, i), "a distance is wrong");
      lc_check(*p++ == '\n', "a distance does not end its line");
    }
    lc_check(*p == 0, "there are more distances than requests");
  } else {
    int total = 0;
    while (*p) {
      char *e;
      int64_t d = strtoll(p, &e, 10), c, k = 0;
      lc_check(e != p && *e == ':', "the counts are not of the form distance:count");
      p = e + 1;
      c = strtoll(p, &e, 10);
      lc_check(e != p, "the counts are not of the form distance:count");
      p = e;
      while (*p == ',' || *p == ' ' || *p == '\n') p++;
      for (int i = 0; i < n; i++) k += dist(type, i) == d || (dist(type, i) == -1 && d == INT64_MAX);
      lc_check(k == c && c > 0, "the count of a distance is wrong");
      total += (int)c;
    }
    lc_check(total == n, "the counts do not add up to the requests");
  }
  for (int i = 0; i < n; i++) if (dist(type, i) >= 0) lc_cover("again");
  lc_done();
}
