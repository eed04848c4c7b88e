// U01: what cachesim's command line says is what it simulates.
// SOURCES: libCacheSim/bin/cachesim/cli_parser.c libCacheSim/bin/cli_reader_utils.c
// FLAGS: -UENABLE_GLCACHE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "lc.h"
#include "cachemk.h"
#include "include/libCacheSim/admissionAlgo.h"
#include "include/libCacheSim/prefetchAlgo.h"
#include "bin/cachesim/internal.h"
#include "bin/cli_reader_utils.h"
#include "utils/include/mysys.h"

static struct arguments A;
static char *argv_[40];
static int argc_;
static void push(const char *s) { argv_[argc_++] = strdup(s); }
// an option in one of its spellings: --name=value, --name value, and -x value, -xvalue where there is a short name
static void opt(const char *name, const char *sh, const char *val) {
  char b[1600];
  switch (lc_param("spell", 0) ? lc_choose("spelling", sh ? 4 : 2) : 0) {
    case 0: b[0] = b[1] = '-'; strcpy(b + 2, name); strcat(b, "="); strcat(b, val); push(b); break;
    case 1: b[0] = b[1] = '-'; strcpy(b + 2, name); push(b); push(val); break;
    case 2: b[0] = '-'; strcpy(b + 1, sh); push(b); push(val); break;
    default: b[0] = '-'; strcpy(b + 1, sh); strcat(b, val); push(b); break;
  }
}
// a decimal number of n arbitrary digits
static uint64_t number(char *b, int n, bool zero) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) {
    char c = (char)lc_range("digit", '0', '9');
    b[i] = c;
    v = v * 10 + (uint64_t)(c - '0');
  }
  b[n] = 0;
  if (!zero) lc_assume(v > 0);
  return v;
}
static int upto(const char *name, int64_t lo, int64_t hi) { return (int)(lo + (int64_t)lc_choose(name, (uint64_t)(hi - lo + 1))); }

// the trace: a few requests of objects of one byte and more
#define MAXR 16
static uint64_t tid[MAXR];
static uint32_t tsize[MAXR];
static int nreq, smin, smax;
static uint64_t wss_obj, wss_byte;
static const char *mktrace(const char *fname) {
  char buf[24 * MAXR];
  nreq = (int)lc_param("reqs", 3);
  smin = (int)lc_param("smin", 1);
  smax = (int)lc_param("smax", 1);
  int used = 0;
  uint32_t size_of[MAXR];
  for (int i = 0; i < nreq; i++) {
    int k = lc_param("repeats", 0) ? (int)lc_choose("obj", (uint64_t)used + 1) : used;
    if (k == used) {
      size_of[k] = smin == smax ? (uint32_t)smin : (uint32_t)upto("size", smin, smax);
      used++;
      wss_obj++;
      wss_byte += size_of[k];
    }
    tid[i] = 11 + 7 * (uint64_t)k;
    tsize[i] = size_of[k];
    uint32_t t = (uint32_t)i;
    int64_t next = -1;
    memcpy(buf + 24 * i, &t, 4);
    memcpy(buf + 24 * i + 4, &tid[i], 8);
    memcpy(buf + 24 * i + 12, &tsize[i], 4);
    memcpy(buf + 24 * i + 16, &next, 8);
  }
  return lc_file(fname, buf, 24 * (size_t)nreq);
}
static const char *tpath;
static void positional(const char *type, const char *algos, const char *sizes) {
  push(tpath);
  push(type);
  push(algos);
  push(sizes);
}
static void parse(void) {
  memset(&A, 0xa5, sizeof A);
  push("");
  argv_[--argc_] = NULL;
  parse_cmd(argc_, argv_, &A);
}
// every cache is the one its algorithm and size name
static void check_caches(const char *algos, int nalgo, const char *params, const uint64_t *want, int nwant, int md) {
  lc_check(A.n_cache_size == nwant, "the number of cache sizes is wrong");
  lc_check(A.n_eviction_algo == nalgo, "the number of algorithms is wrong");
  char list[256], *p = list;
  strcpy(list, algos);
  for (int i = 0; i < nalgo; i++) {
    char *name = strsep(&p, ",");
    for (int j = 0; j < nwant; j++) {
      cache_t *c = A.caches[i * nwant + j];
      if (want) {
        lc_check(A.cache_sizes[j] == want[j], "a cache size is not what the command line says");
        lc_check((uint64_t)c->cache_size == want[j], "a cache does not have its size");
      }
      if (lc_param("names", 1)) {
        cache_t *m = mkcache_hp(name, want ? (int64_t)want[j] : c->cache_size, params, md, 5);
        lc_check(strcmp(m->cache_name, c->cache_name) == 0, "a cache does not run its algorithm with its parameters");
        lc_check(m->obj_md_size == c->obj_md_size, "the metadata of an object is not what was asked for");
        m->cache_free(m);
      }
    }
  }
}
static void finish(int caches) {
  if (lc_param("free", 0))
    for (int i = 0; i < caches; i++) A.caches[i]->cache_free(A.caches[i]);
  free_arg(&A);
}

static const struct { const char *s; int shift; } SUF[] = {{"", 0}, {"k", 10}, {"K", 10}, {"m", 20}, {"M", 20}, {"g", 30}, {"G", 30}, {"t", 40}, {"T", 40},
  {"kb", 10}, {"KB", 10}, {"Kb", 10}, {"kB", 10}, {"mb", 20}, {"MB", 20}, {"mB", 20}, {"gb", 30}, {"GB", 30}, {"Gb", 30}, {"tb", 40}, {"TB", 40}, {"tB", 40}};
static void sizes(void) {
  int n = (int)lc_param("n", 1), nd = (int)lc_param("digits", 2);
  const char *algos = lc_sparam("algos", "lru");
  tpath = mktrace("data/trace.oracleGeneral.bin");
  char s[1024] = "";
  uint64_t want[200];
  for (int i = 0; i < n; i++) {
    int d = lc_param("fixdigits", 0) ? nd : upto("digits", 1, nd), u = (int)lc_choose("unit", (uint64_t)lc_param("units", sizeof SUF / sizeof *SUF));
    if (i) strcat(s, lc_param("blanks", 0) && lc_choose("blank", 2) ? ", " : ",");
    // leading digits that are given make the sizes large
    const char *lead = lc_sparam("lead", "");
    uint64_t top = 0;
    for (const char *p = lead; *p; p++) top = top * 10 + (uint64_t)(*p - '0');
    for (int k = 0; k < d; k++) top *= 10;
    strcat(s, lead);
    want[i] = (top + number(s + strlen(s), d, false)) << SUF[u].shift;
    strcat(s, SUF[u].s);
  }
  positional("oracleGeneral", algos, s);
  parse();
  int nalgo = 1;
  for (const char *p = algos; *p; p++) nalgo += *p == ',';
  check_caches(algos, nalgo, NULL, want, n, 0);
  lc_check(A.trace_type == ORACLE_GENERAL_TRACE, "the trace type is wrong");
  lc_cover("sizes");
  finish(nalgo * n);
}

static const struct { const char *s; double f; } FRAC[] = {{"0.5", 0.5}, {"1.0", 1.0}, {"0.25", 0.25}, {".75", 0.75}, {"0.1", 0.1}, {"2.0", 2.0}};
static void fractions(void) {
  int n = (int)lc_param("n", 1);
  tpath = mktrace("data/trace.oracleGeneral.bin");
  char s[64] = "";
  uint64_t want[4];
  bool ign = lc_choose("ignore", 2);
  if (ign) opt("ignore-obj-size", NULL, "1");
  for (int i = 0; i < n; i++) {
    int u = (int)lc_choose("fraction", 6);
    if (i) strcat(s, ",");
    strcat(s, FRAC[u].s);
    want[i] = (uint64_t)((double)(ign ? wss_obj : wss_byte) * FRAC[u].f);
    lc_assume(want[i] > 0);
  }
  positional("oracleGeneral", "lru", s);
  parse();
  check_caches("lru", 1, NULL, want, n, 0);
  request_t *r = new_request();
  for (int i = 0; i < nreq; i++) lc_check(read_one_req(A.reader, r) == 0 && r->obj_id == tid[i], "the reader does not start at the first request");
  lc_check(read_one_req(A.reader, r) != 0, "the reader has more requests than the trace");
  free_request(r);
  lc_cover("fractions");
  finish(n);
}
static void automatic(void) {
  static const double F[8] = {0.001, 0.003, 0.01, 0.03, 0.1, 0.2, 0.4, 0.8};
  tpath = mktrace("data/trace.oracleGeneral.bin");
  opt("ignore-obj-size", NULL, "true");
  int k = (int)lc_choose("word", 3);
  uint64_t want[8];
  int n = 0;
  for (int i = 0; i < 8; i++)
    if ((uint64_t)((double)wss_obj * F[i]) > 4) want[n++] = (uint64_t)((double)wss_obj * F[i]);
  lc_assume(n > 0);
  positional("oracleGeneral", "fifo", k == 0 ? "0" : k == 1 ? "auto" : "AUTO");
  parse();
  check_caches("fifo", 1, NULL, want, n, 0);
  lc_cover("auto");
  finish(n);
}

static bool has(char c) { const char *o = lc_sparam("opts", ""); return strchr(o, c) != NULL && lc_choose("given", 2); }
static const char *yes(bool *v) {
  static const char *W[] = {"true", "false", "1", "0", "yes", "no", "y", "n", "True", "FALSE"};
  int k = (int)lc_choose("word", lc_param("allwords", 0) ? 10 : 2);
  *v = k % 2 == 0;
  return W[k];
}
static int64_t pick(char *b, int from) {
  static const struct { const char *s; int64_t v; } V[] = {{"0", 0}, {"1", 1}, {"7", 7}, {"16", 16}, {"86400", 86400}};
  int k = from + (int)lc_choose("value", 5 - (uint64_t)from);
  strcpy(b, V[k].s);
  return V[k].v;
}
static void options(void) {
  char b[32];
  tpath = mktrace("data/trace.oracleGeneral.bin");
  int where = lc_param("spell", 0) ? (int)lc_choose("where", 2) : 0;
  const char *algo = lc_sparam("algos", "lru");
  if (where) positional("oracleGeneral", algo, "100,200");
  int64_t threads = n_cores(), num = -1, warm = -1, report = 3600 * 24;
  bool verbose = true, ttl = false, ign = false, md = false, head = true;
  double ratio = 1;
  const char *out = NULL, *adm = NULL, *admp = NULL, *pf = NULL, *pfp = NULL, *evp = NULL;
  if (has('t')) { threads = pick(b, 0); opt("num-thread", NULL, b); if (threads == 0) threads = n_cores(); }
  if (has('n')) {
    if (lc_param("big", 0) && lc_choose("big", 2)) { num = 5000000000ll; opt("num-req", "n", "5000000000"); }
    else { num = 1 + (int64_t)lc_choose("num", 6); b[0] = (char)('0' + num); b[1] = 0; opt("num-req", "n", b); }
  }
  if (has('w')) { warm = pick(b, 1); opt("warmup-sec", NULL, b); }
  if (has('r')) { report = (int64_t)number(b, 3, true); opt("report-interval", NULL, b); }
  if (has('v')) opt("verbose", "v", yes(&verbose));
  if (has('l')) opt("use-ttl", NULL, yes(&ttl));
  if (has('i')) opt("ignore-obj-size", NULL, yes(&ign));
  if (has('m')) opt("consider-obj-metadata", NULL, yes(&md));
  if (has('h')) opt("print-head-req", NULL, yes(&head));
  if (has('o')) { out = "some/where.txt"; opt("output", "o", out); }
  if (has('s')) {
    static const char *R[] = {"0.5", "0.1", "1", "0.01"};
    static const double V[] = {0.5, 0.1, 1, 0.01};
    int k = (int)lc_choose("ratio", 4);
    ratio = V[k];
    opt("sample-ratio", "s", R[k]);
  }
  static const char *EV[][2] = {{"n-seg=2", "n_seg=2"}, {"n-seg=3", "n-seg=3"}, {"fifo-size-ratio=0.25,move-to-main-threshold=1", "fifo_size_ratio=0.25;move_to_main_threshold=1"}};
  if (has('e')) { evp = EV[lc_param("ev", 0)][0]; opt("eviction-params", "e", EV[lc_param("ev", 0)][1]); }
  if (has('a')) { adm = lc_choose("admission", 2) ? "size" : "bloomfilter"; opt("admission", "a", adm); if (!strcmp(adm, "size")) { admp = "size=2"; opt("admission-params", NULL, admp); } }
  if (has('p')) { pf = lc_choose("prefetch", 2) ? "OBL" : "PG"; opt("prefetch", "p", pf); if (!strcmp(pf, "OBL")) { pfp = "block-size=3;sequential_confidence_k=2"; opt("prefetch-params", NULL, pfp); } }
  if (!where) positional("oracleGeneral", algo, "100,200");
  parse();
  lc_check(A.n_thread == threads, "the number of threads is not what the option says");
  lc_check(A.n_req == num, "the number of requests is not what the option says");
  lc_check(A.warmup_sec == warm, "the warm-up is not what the option says");
  lc_check(A.report_interval == report, "the report interval is not what the option says");
  lc_check(A.verbose == verbose && A.use_ttl == ttl && A.print_head_req == head, "a switch is not what the option says");
  lc_check(A.ignore_obj_size == ign, "ignore-obj-size is not what the option says");
  lc_check(A.sample_ratio == ratio, "the sample ratio is not what the option says");
  lc_check(strcmp(A.ofilepath, out ? out : "trace.oracleGeneral.bin.cachesim") == 0, "the output path is not what the option says");
  lc_check(strcmp(A.trace_path, tpath) == 0, "the trace path is wrong");
  // the metadata of the objects counts only when the trace has object sizes
  bool sized = !ign && (nreq && smin > 1);
  uint64_t want[2] = {100, 200};
  int nalgo = 1;
  for (const char *p = algo; *p; p++) nalgo += *p == ',';
  check_caches(algo, nalgo, evp, want, 2, md && sized);
  for (int i = 0; i < 2 * nalgo; i++) {
    cache_t *c = A.caches[i];
    lc_check((c->admissioner != NULL) == (adm != NULL) && (c->prefetcher != NULL) == (pf != NULL), "a cache has an admission or prefetching algorithm nobody asked for, or lacks it");
    if (adm) {
      admissioner_t *m = !strcmp(adm, "size") ? create_size_admissioner(admp) : create_bloomfilter_admissioner(NULL);
      lc_check(c->admissioner->admit == m->admit, "the admission algorithm is not the one asked for");
      m->free(m);
    }
    if (pf) {
      prefetcher_t *m = !strcmp(pf, "OBL") ? create_OBL_prefetcher(NULL, 100) : create_PG_prefetcher(NULL, 100);
      lc_check(c->prefetcher->prefetch == m->prefetch, "the prefetching algorithm is not the one asked for");
      m->free(m);
    }
    request_t *r = mkreq(5, 2);
    if (admp) {
      lc_check(!c->admissioner->admit(c->admissioner, r), "an object of the limiting size is admitted");
      r->obj_size = 1;
      lc_check(c->admissioner->admit(c->admissioner, r), "a smaller object is not admitted");
    }
    free_request(r);
  }
  // the requests the simulation will see
  lc_check((A.reader->sampler != NULL) == (ratio < 1), "the trace is sampled although nobody asked for it, or not");
  if (A.reader->sampler) lc_check(A.reader->sampler->sampling_ratio == ratio, "the sampler does not have the ratio of the option");
  else {
    request_t *r = new_request();
    int64_t n = num > 0 && num < nreq ? num : nreq;
    for (int i = 0; i < n; i++) {
      lc_check(read_one_req(A.reader, r) == 0 && r->obj_id == tid[i], "the reader does not deliver the requests of the trace");
      lc_check(r->obj_size == (ign ? 1 : (int64_t)tsize[i]), "an object has another size than the options say");
    }
    lc_check(read_one_req(A.reader, r) != 0, "the reader delivers more requests than the option allows");
    free_request(r);
  }
  lc_cover("options");
  finish(2 * nalgo);
}

extern uint64_t (*lc_hash_fn)(const void *key, uint64_t l);
static uint64_t digit_hash(const void *key, uint64_t l) {
  if (l == 8) return *(const uint64_t *)key;
  lc_check(l == 1, "something else than the text of a column is taken as the object");
  return 1000 + *(const unsigned char *)key;
}
// the columns of a csv trace, in any order, under any of their names
static void columns(void) {
  static const char *TIME[] = {"time-col", "time-field", "time_col"}, *ID[] = {"obj-id-col", "obj-id-field", "obj_id_col"},
    *SIZE[] = {"obj-size-col", "size-col", "size-field", "obj-size-field", "obj_size_field"}, *NEXT[] = {"next-access-col", "next-access-field"};
  static const char *HEAD[] = {"has-header", "header", "has_header"};
  int rows = (int)lc_param("rows", 2), ncol = 4;
  int col[3], order[3], k;
  int delim = (int)lc_choose("delimiter", (uint64_t)lc_param("delims", 4));
  char dc = ",;\t|:"[delim];
  static const char *DT[] = {"delimiter=,", "delimiter=;", "delimiter=\\t", "delimiter=|", "delimiter=:"};
  for (int i = 0; i < 3; i++) {
    col[i] = lc_param("fixcols", 0) ? (i + 1) % ncol + 1 : upto("column", 1, ncol);
    for (int j = 0; j < i; j++) lc_assume(col[i] != col[j]);
  }
  int header = lc_param("header", 0) ? (int)lc_choose("header", 2) : 0, isnum = (int)lc_choose("numeric", 2);
  char buf[512] = "", v[16];
  uint64_t val[4][4];
  if (header) { for (int c = 0; c < ncol; c++) { strcat(buf, "name"); char d[2] = {c < ncol - 1 ? dc : '\n', 0}; strcat(buf, d); } }
  for (int r = 0; r < rows; r++)
    for (int c = 0; c < ncol; c++) {
      val[r][c] = number(v, 1, false);
      strcat(buf, v);
      char d[2] = {c < ncol - 1 ? dc : '\n', 0};
      strcat(buf, d);
    }
  tpath = lc_file("data/trace.csv", buf, strlen(buf));
  lc_hash_fn = digit_hash;
  char s[400] = "", d[2] = "0";
  // the parameters in any order
  k = (int)lc_choose("order", 6);
  static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  memcpy(order, P[k], sizeof order);
  const char *sep = lc_choose("blank", 2) ? ", " : ",";
  int early = lc_param("early", 0) ? (int)lc_choose("early", 2) : 0;
  if (early) { strcat(s, DT[delim]); strcat(s, sep); }
  for (int i = 0; i < 3; i++) {
    int al = lc_param("aliases", 0);
    strcat(s, order[i] == 0 ? TIME[al ? lc_choose("name", 3) : 0] : order[i] == 1 ? ID[al ? lc_choose("name", 3) : 0] : SIZE[al ? lc_choose("name", 5) : 0]);
    strcat(s, "=");
    d[0] = (char)('0' + col[order[i]]);
    strcat(s, d);
    strcat(s, sep);
  }
  (void)NEXT;
  if (isnum) { strcat(s, "obj-id-is-num=true"); strcat(s, sep); }
  strcat(s, HEAD[lc_param("aliases", 0) ? lc_choose("name", 3) : 0]);
  strcat(s, header ? "=true" : "=false");
  if (!early) { strcat(s, sep); strcat(s, DT[delim]); }
  opt("trace-type-params", "t", s);
  positional(lc_choose("case", 2) ? "CSV" : "csv", "lru", "100");
  parse();
  lc_check(A.trace_type == CSV_TRACE, "the trace type is wrong");
  request_t *r = new_request();
  uint64_t first = 0;
  for (int i = 0; i < rows; i++) {
    lc_check(read_one_req(A.reader, r) == 0, "a line of the trace is missing");
    lc_check((uint64_t)r->clock_time == val[i][col[0] - 1], "the time is not that of the named column");
    if (isnum) lc_check(r->obj_id == val[i][col[1] - 1], "the object is not that of the named column");
    else if (i == 0) first = r->obj_id;
    else lc_check((r->obj_id == first) == (val[i][col[1] - 1] == val[0][col[1] - 1]), "the object is not that of the named column");
    lc_check((uint64_t)r->obj_size == val[i][col[2] - 1], "the size is not that of the named column");
  }
  lc_check(read_one_req(A.reader, r) != 0, "the reader delivers more than the lines of the trace");
  free_request(r);
  lc_cover("columns");
  finish(1);
}
// a binary trace described by a format
static void format(void) {
  int nd = 3, col[3];
  static const char F[] = "IQIH";
  char buf[64], fmt[80] = "format=<", d[2] = "0";
  int pos[4], off = 0, order = (int)lc_choose("layout", 3);
  static const char *L[] = {"IQI", "QHI", "IIQ"};
  (void)F;
  strcat(fmt, L[order]);
  for (int i = 0; i < 3; i++) { pos[i] = off; off += L[order][i] == 'Q' ? 8 : L[order][i] == 'I' ? 4 : 2; }
  lc_bytes(buf, (size_t)off, "byte");
  tpath = lc_file("data/trace.bin", buf, (size_t)off);
  for (int i = 0; i < nd; i++) {
    col[i] = upto("column", 1, 3);
    for (int j = 0; j < i; j++) lc_assume(col[i] != col[j]);
  }
  strcat(fmt, ",time-col="); d[0] = (char)('0' + col[0]); strcat(fmt, d);
  strcat(fmt, ",obj-id-col="); d[0] = (char)('0' + col[1]); strcat(fmt, d);
  strcat(fmt, ",obj-size-col="); d[0] = (char)('0' + col[2]); strcat(fmt, d);
  uint64_t v[3];
  for (int i = 0; i < 3; i++) {
    v[i] = 0;
    memcpy(&v[i], buf + pos[col[i] - 1], L[order][col[i] - 1] == 'Q' ? 8 : L[order][col[i] - 1] == 'I' ? 4 : 2);
  }
  lc_assume(v[2] > 0);
  opt("trace-type-params", "t", fmt);
  positional("binary", "lru", "100");
  parse();
  lc_check(A.trace_type == BIN_TRACE, "the trace type is wrong");
  request_t *r = new_request();
  lc_check(read_one_req(A.reader, r) == 0, "the request is missing");
  lc_check((uint64_t)r->clock_time == v[0] && r->obj_id == v[1] && (uint64_t)r->obj_size == v[2], "a field is not that of the named column");
  lc_check(read_one_req(A.reader, r) != 0, "the reader delivers more than the trace");
  free_request(r);
  lc_cover("format");
  finish(1);
}
// names of trace types, and what the name of a file says about its type
static void types(void) {
  static const struct { const char *s; trace_type_e t; } N[] = {{"txt", PLAIN_TXT_TRACE}, {"csv", CSV_TRACE}, {"binary", BIN_TRACE}, {"lcs", LCS_TRACE}, {"twr", TWR_TRACE},
    {"twrNS", TWRNS_TRACE}, {"vscsi", VSCSI_TRACE}, {"CF1", CF1_TRACE}, {"oracleWiki16u", ORACLE_WIKI16u_TRACE}, {"oracleWiki19u", ORACLE_WIKI19u_TRACE},
    {"oracleGeneralBin", ORACLE_GENERAL_TRACE}, {"oracleGeneral", ORACLE_GENERAL_TRACE}, {"oracleGeneralOpNS", ORACLE_GENERALOPNS_TRACE}, {"oracleAkamai", ORACLE_AKAMAI_TRACE},
    {"oracleCF1", ORACLE_CF1_TRACE}, {"oracleSysTwrNS", ORACLE_SYS_TWRNS_TRACE}, {"valpinTrace", VALPIN_TRACE}};
  static const struct { const char *s; trace_type_e t; } D[] = {{"x.oracleGeneral", ORACLE_GENERAL_TRACE}, {"x.oracleGeneral.bin", ORACLE_GENERAL_TRACE}, {"x.oracleGeneral.zst", ORACLE_GENERAL_TRACE},
    {"oracleGeneral", ORACLE_GENERAL_TRACE}, {"a.oracleGeneralBin.x", ORACLE_GENERAL_TRACE}, {"t.vscsi", VSCSI_TRACE}, {"t.VSCSI.zst", VSCSI_TRACE}, {"t.oracleGeneralOpNS", ORACLE_GENERALOPNS_TRACE},
    {"t.oracleCF1", ORACLE_CF1_TRACE}, {"t.oracleAkamai", ORACLE_AKAMAI_TRACE}, {"t.oracleWiki16u", ORACLE_WIKI16u_TRACE}, {"t.oracleWiki19u", ORACLE_WIKI19u_TRACE}, {"t.twr.bin", TWR_TRACE},
    {"t.twrNS.bin", TWRNS_TRACE}, {"t.oracleSysTwrNS", ORACLE_SYS_TWRNS_TRACE}, {"w82.oracleGeneral.bin.zst", ORACLE_GENERAL_TRACE}};
  char s[80];
  if (lc_choose("auto", 2)) {
    int k = (int)lc_choose("path", sizeof D / sizeof *D);
    int dir = (int)lc_choose("dir", 2);
    strcpy(s, dir ? "/some/dir/" : "");
    strcat(s, D[k].s);
    char *p = strdup(s);  // exactly as long as the text
    lc_check(detect_trace_type(p) == D[k].t, "the type of a trace is not the one its name tells");
    lc_check(trace_type_str_to_enum(lc_choose("case", 2) ? "auto" : "Auto", p) == D[k].t, "the detected type is not used");
    free(p);
    lc_cover("detected");
  } else {
    int k = (int)lc_choose("type", sizeof N / sizeof *N), c = (int)lc_choose("case", 3);
    strcpy(s, N[k].s);
    for (char *p = s; *p; p++) *p = c == 1 && *p >= 'a' && *p <= 'z' ? *p - 32 : c == 2 && *p >= 'A' && *p <= 'Z' ? *p + 32 : *p;
    char *p = strdup("x");
    lc_check(trace_type_str_to_enum(s, p) == N[k].t, "a type name does not mean its type");
    free(p);
    lc_cover("named");
  }
}
// a file whose name says nothing
static void unknown(void) {
  char *p = malloc(16);
  int n = upto("length", 0, (int)lc_param("maxlen", 3));
  for (int i = 0; i < n; i++) p[i] = (char)lc_range("letter", 'a', 'z');
  p[n] = 0;
  char *q = strdup(p);
  free(p);
  lc_check(detect_trace_type(q) == UNKNOWN_TRACE, "a name without a type was given one");
  free(q);
  lc_cover("unknown");
}
// parameters so long that the report of the arguments does not fit its buffer
static void longargs(void) {
  tpath = mktrace("data/trace.oracleGeneral.bin");
  char s[1500] = "";
  int n = 80 + 10 * (int)lc_choose("length", 5);
  for (int i = 0; i < n; i++) strcat(s, "time-col=1,");
  int which = (int)lc_choose("which", 2);
  if (which == 0) opt("trace-type-params", "t", s);
  else opt("prefetch-params", NULL, s);
  positional("oracleGeneral", "lru,fifo", "100");
  parse();
  uint64_t want[1] = {100};
  check_caches("lru,fifo", 2, NULL, want, 1, 0);
  lc_cover("long");
  finish(2);
}
// as many algorithms and sizes as there is room for, and more
static void many(void) {
  tpath = mktrace("data/trace.oracleGeneral.bin");
  char algos[400] = "", s[1024] = "", out[200] = "";
  int na = 1, ns = 1, no = 5;
  switch (lc_choose("what", 3)) {
    case 0: na = upto("algos", 15, 18); break;
    case 1: ns = upto("sizes", 127, 131); break;
    default: no = upto("path", 126, 129); break;
  }
  for (int i = 0; i < na; i++) strcat(algos, i ? ",lru" : "lru");
  for (int i = 0; i < ns; i++) strcat(s, i ? ",100" : "100");
  for (int i = 0; i < no; i++) strcat(out, "o");
  opt("output", "o", out);
  positional("oracleGeneral", algos, s);
  lc_expect_abort(na > 16 || ns > 128 || no > 127);
  parse();
  lc_check(na <= 16 && ns <= 128 && no <= 127, "too many arguments are accepted");
  lc_check(A.n_eviction_algo == na && A.n_cache_size == ns && strcmp(A.ofilepath, out) == 0, "an argument was lost");
  lc_cover("many");
}
// the readers of the other tools
static void tools(void) {
  tpath = mktrace("data/trace.oracleGeneral.bin");
  static const double V[] = {0.5, 0.1, 1, 0.01};
  double ratio = V[lc_choose("ratio", 4)];
  bool ign = lc_choose("ignore", 2);
  int64_t cap = upto("cap", -1, nreq + 1);
  reader_t *rd = create_reader("oracleGeneral", tpath, NULL, cap, ign, ratio);
  lc_check((rd->sampler != NULL) == (ratio < 1), "the trace is sampled although nobody asked for it, or not");
  if (rd->sampler) lc_check(rd->sampler->sampling_ratio == ratio, "the sampler does not have the ratio of the option");
  else {
    request_t *r = new_request();
    int64_t n = cap > 0 && cap < nreq ? cap : nreq;
    for (int i = 0; i < n; i++) lc_check(read_one_req(rd, r) == 0 && r->obj_id == tid[i] && r->obj_size == (ign ? 1 : (int64_t)tsize[i]), "the reader does not deliver the requests of the trace");
    lc_check(read_one_req(rd, r) != 0, "the reader delivers more requests than asked for");
    free_request(r);
  }
  lc_cover("tools");
  close_reader(rd);
}
void lc_main(void) {
  const char *m = lc_sparam("mode", "sizes");
  push("cachesim");
  if (!strcmp(m, "sizes")) sizes();
  else if (!strcmp(m, "fractions")) fractions();
  else if (!strcmp(m, "auto")) automatic();
  else if (!strcmp(m, "options")) options();
  else if (!strcmp(m, "columns")) columns();
  else if (!strcmp(m, "format")) format();
  else if (!strcmp(m, "types")) types();
  else if (!strcmp(m, "unknown")) unknown();
  else if (!strcmp(m, "long")) longargs();
  else if (!strcmp(m, "many")) many();
  else if (!strcmp(m, "tools")) tools();
  else abort();
  lc_done();
}
