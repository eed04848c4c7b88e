// T02: traceAnalyzer's statistics are those of the trace.
// SOURCES: libCacheSim/bin/traceAnalyzer/main.cpp libCacheSim/bin/traceAnalyzer/cli_parser.cpp libCacheSim/bin/cli_reader_utils.c libCacheSim/traceAnalyzer/accessPattern.cpp libCacheSim/traceAnalyzer/analyzer.cpp libCacheSim/traceAnalyzer/popularity.cpp libCacheSim/traceAnalyzer/popularityDecay.cpp libCacheSim/traceAnalyzer/reqRate.cpp libCacheSim/traceAnalyzer/reuse.cpp libCacheSim/traceAnalyzer/size.cpp libCacheSim/traceAnalyzer/ttl.cpp libCacheSim/traceAnalyzer/experimental/createFutureReuseCCDF.cpp libCacheSim/traceAnalyzer/experimental/lifetime.cpp libCacheSim/traceAnalyzer/experimental/probAtAge.cpp libCacheSim/traceAnalyzer/experimental/sizeChange.cpp $VERIF/harness/fake/strings.cpp
// FLAGS: -ULOGLEVEL -DLOGLEVEL=8 -include $VERIF/harness/robin.h -I$VERIF/harness/fake
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "tooltrace.h"

static char got[16384], out[1300], path[1400], *p;
static int w, obj[MAXN], first[MAXN], prev[MAXN], nobj, freq[MAXN];
static int64_t t[MAXN];
static char want[4096];

static void openfile(const char *suffix, int win, const char *tail) {
  if (win) snprintf(path, sizeof path, "%s.%s_w%d%s", out, suffix, win, tail);
  else snprintf(path, sizeof path, "%s.%s", out, suffix);
  long l = lc_readfile(path, got, sizeof got - 1);
  lc_check(l >= 0, "a file of the analysis is not where it was asked for");
  got[l] = 0;
  p = got;
}
static void comment(void) {
  while (*p == '#') {
    p = strchr(p, '\n');
    lc_check(p != NULL, "a comment line does not end");
    p++;
  }
}
static long num(void) {
  char *e;
  long v = strtol(p, &e, 10);
  lc_check(e != p, "a number is missing in a file of the analysis");
  p = e;
  return v;
}
static void eat(char c, const char *msg) {
  lc_check(*p == c, msg);
  p++;
}
// lines "key:count" until the next comment or the end: exactly those of the table k/c
static void table(int m, const long *k, const long *c, const char *msg) {
  int seen = 0;
  while (*p && *p != '#') {
    long a = num();
    eat(':', msg);
    long b = num();
    eat('\n', msg);
    int hit = -1;
    for (int i = 0; i < m; i++) if (k[i] == a) hit = i;
    lc_check(hit >= 0 && c[hit] == b, msg);
    seen++;
  }
  lc_check(seen == m, msg);
}
static int add(int m, long *k, long *c, long key, long by) {
  for (int i = 0; i < m; i++)
    if (k[i] == key) { c[i] += by; return m; }
  k[m] = key;
  c[m] = by;
  return m + 1;
}
// a line of counts; beyond the largest key there are only zeros
static void counts(int m, const long *k, const long *c, const char *msg) {
  int got_ = 0;
  for (int at = 0; *p != '\n'; at++) {
    lc_check(*p != 0, msg);
    long v = num(), e = 0;
    eat(',', msg);
    for (int i = 0; i < m; i++) if (k[i] == at) e = c[i], got_++;
    lc_check(v == e, msg);
  }
  p++;
  lc_check(got_ == m, msg);
}
static int logpos(double v) { return (int)(log(v) / log(1.5)); }
static void line(const char *s, const char *msg) { lc_check(strstr(got, s) != NULL, msg); }

void lc_main(void) {
  int argc = 0;
  char *argv[24], b[64];
  bool twr_ = !strcmp(lc_sparam("kind", "bin"), "twr");
  mktrace();
  argv[argc++] = strdup("traceAnalyzer");
  argv[argc++] = strdup(tpath);
  argv[argc++] = strdup(ttype);
  if (tparams[0]) { argv[argc++] = strdup("-t"); argv[argc++] = strdup(tparams); }
  w = (int)lc_param("w", 2);
  snprintf(b, sizeof b, "--time-window=%d", w);
  argv[argc++] = strdup(b);
  enum { RATE = 1, SIZE = 2, REUSE = 4, POP = 8, ACC = 16, DECAY = 32, TTL = 64 };
  static const struct { const char *o; int m; } T[] = {{"--reqRate", RATE}, {"--size", SIZE}, {"--reuse", REUSE}, {"--popularity", POP}, {"--accessPattern", ACC}, {"--popularityDecay", DECAY}, {"--ttl", TTL}, {"--common", 15}, {"--all", 63}};
  int mask = (int)lc_param("tasks", 0), on = 0;
  for (int i = 0; i < 9; i++)
    if (mask >> i & 1) argv[argc++] = strdup(T[i].o), on |= T[i].m;
  if (lc_param("anytask", 0)) {
    int i = (int)lc_choose("task", 9);
    argv[argc++] = strdup(T[i].o);
    on |= T[i].m;
  }
  int nhit = 8, npop = 8;
  if (lc_param("track", 0)) {
    nhit = 1 + (int)lc_choose("track-n-hit", 3);
    npop = 1 + (int)lc_choose("track-n-popular", 3);
    snprintf(b, sizeof b, "--track-n-hit=%d", nhit);
    argv[argc++] = strdup(b);
    snprintf(b, sizeof b, "--track-n-popular=%d", npop);
    argv[argc++] = strdup(b);
  }
  if (lc_param("warm", 0)) {
    snprintf(b, sizeof b, "--warmup-sec=%d", w * (int)lc_choose("warmup", 3));
    argv[argc++] = strdup(b);
  }
  int cap = lc_param("cap", 0) ? 1 + (int)lc_choose("cap", (uint64_t)n) : 0;
  if (cap > 0) { snprintf(b, sizeof b, "--num-req=%d", cap); argv[argc++] = strdup(b); if (cap < n) n = cap; }
  int olen = (int)lc_param("outlen", 0);
  if (olen || !lc_param("out", 1) || lc_choose("output", 2)) {
    strcpy(out, lc_newfile("x"));
    for (int k = (int)strlen(out); k < olen; k++) strcat(out, "y");
    bool sep = lc_param("out", 1) && lc_choose("separate", 2);
    snprintf(path, sizeof path, "%s%s", sep ? "" : "--output=", out);
    if (sep) argv[argc++] = strdup("-o");
    argv[argc++] = strdup(path);
  } else {
    strcpy(out, strrchr(tpath, '/') + 1);
  }
  argv[argc] = NULL;
  lc_check(tool_main(argc, argv) == 0, "the program fails");
  if (n == 0) {
    long l = lc_readfile("traceStat", got, sizeof got - 1);
    got[l < 0 ? 0 : l] = 0;
    lc_check(strstr(got, "number of requests: 1") == NULL, "an empty trace has a request");
    lc_cover("empty");
    lc_done();
    return;
  }

  int64_t bytes = 0, obytes = 0;
  for (int i = 0; i < n; i++) {
    t[i] = ev[i].clock - ev[0].clock;
    prev[i] = -1;
    for (int j = 0; j < i; j++) if (ev[j].id == ev[i].id) prev[i] = j;
    if (prev[i] < 0) first[nobj] = i, freq[nobj] = 0, obj[i] = nobj++, obytes += ev[i].size;
    else obj[i] = obj[prev[i]], lc_cover("again");
    freq[obj[i]]++;
    bytes += ev[i].size;
  }
  long l = lc_readfile("traceStat", got, sizeof got - 1);
  lc_check(l >= 0, "the statistics are not written");
  got[l] = 0;
  snprintf(want, sizeof want, "number of requests: %d, number of objects: %d\n", n, nobj);
  line(want, "the numbers of requests and objects are not those of the trace");
  snprintf(want, sizeof want, "number of req GiB: %.4f, number of obj GiB: %.4f\n", (double)bytes / 1073741824.0, (double)obytes / 1073741824.0);
  line(want, "the bytes of requests and objects are not those of the trace");
  snprintf(want, sizeof want, "compulsory miss ratio (req/byte): %.4f/%.4f\n", (double)nobj / n, (double)obytes / (double)bytes);
  line(want, "the compulsory miss ratios are not those of the trace");
  snprintf(want, sizeof want, "object size weighted by req/obj: %lld/%lld\n", (long long)((double)bytes / n), (long long)((double)obytes / nobj));
  line(want, "the mean sizes are not those of the trace");
  snprintf(want, sizeof want, "frequency mean: %.4f\n", (double)n / nobj);
  line(want, "the mean frequency is not that of the trace");
  snprintf(want, sizeof want, "time span: %lld(%.4f day)\n", (long long)t[n - 1], (double)t[n - 1] / 3600 / 24);
  line(want, "the time span is not that of the trace");
  if (twr_) {
    int wr = 0, ow = 0, del = 0, inv = 0, cnt[16] = {0};
    for (int i = 0; i < n; i++) {
      bool isw = ev[i].op == 3 || ev[i].op == 5 || ev[i].op == 6;
      wr += isw;
      ow += isw && prev[i] >= 0;
      del += ev[i].op == 9;
      inv += ev[i].op >= 15;
      cnt[ev[i].op >= 15 ? 15 : ev[i].op]++;
    }
    bool most = inv < n / 2;
    static const char *OPS[] = {"nop", "get", "gets", "set", "add", "cas", "replace", "append", "prepend", "delete", "incr", "decr", "read", "write", "update", "invalid"};
    if (most) {
      strcpy(want, "op: ");
      for (int o = 0; o < 16; o++) {
        snprintf(b, sizeof b, "%s:%d(%.4f), ", OPS[o], cnt[o], (double)cnt[o] / n);
        strcat(want, b);
      }
      strcat(want, "\n");
      line(want, "the numbers of operations are not those of the trace");
      lc_cover("operations");
    }
    snprintf(want, sizeof want, most ? "write: %d(%.4f), overwrite: %d(%.4f), del:%d(%.4f)\n" : "write: %d(%g), overwrite: %d(%g), del:%d(%g)\n", wr, (double)wr / n, ow, (double)ow / n, del, (double)del / n);
    line(want, "the numbers of writes and deletions are not those of the trace");
  }
  strcpy(want, "accessed X times): ");
  for (int x = 1; x <= nhit; x++) {
    int c = 0;
    for (int o = 0; o < nobj; o++) c += freq[o] == x;
    snprintf(b, sizeof b, "%d(%.4f), ", c, (double)c / nobj);
    strcat(want, b);
  }
  strcat(want, "\n");
  line(want, "the numbers of objects requested once, twice, ... are not those of the trace");
  for (int i = 0; i < nobj; i++)
    for (int j = i + 1; j < nobj; j++)
      if (freq[j] > freq[i]) { int s = freq[i]; freq[i] = freq[j]; freq[j] = s; }
  if (on & POP) {
    strcpy(want, "of the most popular obj: ");
    for (int x = 0; x < npop; x++) {
      int c = x < nobj ? freq[x] : 0;
      snprintf(b, sizeof b, "%d(%.4f), ", c, (double)c / n);
      strcat(want, b);
    }
    strcat(want, "\n");
    line(want, "the requests of the most popular objects are not those of the trace");
    openfile("popularity", 0, "");
    comment();
    for (int i = 0; i < nobj;) {
      int c = 1;
      while (i + c < nobj && freq[i + c] == freq[i]) c++;
      const char *m = "the popularity file does not list how many objects have each number of requests";
      lc_check(num() == freq[i], m);
      eat(':', m);
      lc_check(num() == c, m);
      eat('\n', m);
      i += c;
    }
    lc_check(*p == 0, "the popularity file has lines that belong to no object");
  }
  long k[MAXN], c[MAXN];
  if (twr_ && (on & TTL)) {
    int e = 0;
    for (int i = 0; i < n; i++) if (ev[i].ttl > 0) e = add(e, k, c, ev[i].ttl, 1);
    openfile("ttl", 0, "");
    comment();
    table(e, k, c, "the times to live are not those of the trace");
  }
  int m, nw = (int)(t[n - 1] / w);  // windows that have ended; the last one may be reported or not
  if (nw > 0) lc_cover("windows");
  // first_[i]: first request to the object in its window
  bool first_[MAXN];
  for (int i = 0; i < n; i++) first_[i] = prev[i] < 0 || t[prev[i]] / w != t[i] / w;
  if (on & RATE) {
    openfile("reqRate", w, "");
    for (int what = 0; what < 4; what++) {
      comment();
      for (int v = 0; v < nw; v++) {
        int64_t s = 0;
        for (int i = 0; i < n; i++)
          if (t[i] / w == v) s += what == 0 ? 1 : what == 1 ? ev[i].size : what == 2 ? first_[i] : prev[i] < 0;
        lc_check(num() == s / w, "the rates of a time window are not those of the trace");
        eat(',', "a rate is not followed by a comma");
      }
      if (*p != '\n') num(), eat(',', "a rate is not followed by a comma");
      eat('\n', "there are rates of more windows than the trace has");
    }
    if (nw > 0)
      for (int what = 0; what < 2; what++) {
        double lo = 1e18, hi = 0;
        for (int v = 0; v < nw; v++) {
          int s = 0;
          for (int i = 0; i < n; i++) if (t[i] / w == v) s += what ? first_[i] : 1;
          if ((double)s / w < lo) lo = (double)s / w;
          if ((double)s / w > hi) hi = (double)s / w;
        }
        const char *u = what ? "obj" : "req";
        snprintf(want, sizeof want, "%s rate min %.4f %s/s, max %.4f %s/s, window %ds\n", what ? "object" : "request", lo, u, hi, u, w);
        l = lc_readfile("traceStat", got, sizeof got - 1);
        got[l] = 0;
        line(want, "the smallest and largest rates are not those of the trace");
      }
  }
  if (on & SIZE) {
    openfile("size", 0, "");
    comment();
    m = 0;
    for (int i = 0; i < n; i++) m = add(m, k, c, ev[i].size, 1);
    table(m, k, c, "the requests per size are not those of the trace");
    comment();
    m = 0;
    for (int i = 0; i < n; i++) if (prev[i] < 0) m = add(m, k, c, ev[i].size, 1);
    table(m, k, c, "the objects per size are not those of the trace");
    for (int what = 0; what < 2; what++) {
      openfile("sizeWindow", w, what ? "_obj" : "_req");
      comment();
      for (int v = 0; v < nw; v++) {
        m = 0;
        for (int i = 0; i < n; i++)
          if (t[i] / w == v && (!what || first_[i])) m = add(m, k, c, logpos((double)ev[i].size), 1);
        counts(m, k, c, "the sizes of a time window are not those of the trace");
      }
      while (*p && *p != '\n') num(), eat(',', "a count is not followed by a comma");
      if (*p) p++;
      lc_check(*p == 0, "there are sizes of more windows than the trace has");
    }
  }
  if (on & REUSE) {
    openfile("reuse", 0, "");
    for (int what = 0; what < 2; what++) {
      comment();
      m = 0;
      for (int i = 0; i < n; i++) m = add(m, k, c, prev[i] < 0 ? -1 : what ? logpos(i - prev[i]) : (long)(t[i] - t[prev[i]]) / 5, 1);
      table(m, k, c, "the reuse times are not those of the trace");
    }
    for (int what = 0; what < 2; what++) {
      openfile("reuseWindow", w, what ? "_vt" : "_rt");
      comment();
      for (int v = 0; v < nw; v++) {
        m = 0;
        for (int i = 0; i < n; i++)
          if (t[i] / w == v && prev[i] >= 0) m = add(m, k, c, what ? logpos(i - prev[i]) : (long)(t[i] - t[prev[i]]) / 5, 1);
        counts(m, k, c, "the reuse times of a time window are not those of the trace");
      }
      while (*p && *p != '\n') num(), eat(',', "a count is not followed by a comma");
      if (*p) p++;
      lc_check(*p == 0, "there are reuse times of more windows than the trace has");
    }
  }
  if (on & ACC) {
    openfile("accessVtime", 0, "");
    comment();
    for (int o = 0; o < nobj; o++) {
      for (int i = 0; i < n; i++) {
        if (obj[i] != o) continue;
        lc_check(num() == i + 1, "the positions of an object's requests are not those of the trace");
        eat(',', "a position is not followed by a comma");
      }
      eat('\n', "an object has more positions than requests");
    }
    openfile("accessRtime", 0, "");
    comment();
    bool done[MAXN] = {false};
    for (int r = 0; r < nobj; r++) {
      int best = -1;
      char *start = p;
      for (int o = 0; o < nobj && best < 0; o++) {
        bool ok = !done[o];
        for (int q = 0; q < nobj; q++) if (!done[q] && t[first[q]] < t[first[o]]) ok = false;
        p = start;
        for (int i = 0; i < n && ok; i++)
          if (obj[i] == o) ok = *p >= '0' && *p <= '9' && num() == t[i] && *p == ',' && p++;
        if (ok && *p == '\n') best = o;
      }
      lc_check(best >= 0, "the times of an object's requests are not those of the trace");
      done[best] = true;
      p++;
    }
  }
  lc_done();
}
