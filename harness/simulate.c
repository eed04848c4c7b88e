// S01: what the simulator reports is what requesting the trace from a fresh cache yields, under every schedule.
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "cachemk.h"
#include "include/libCacheSim/reader.h"
#include "include/libCacheSim/simulator.h"
#include "utils/include/mymath.h"

#define MAXN 16
typedef struct { uint64_t id; int64_t size, clock, next; } ev_t;
typedef struct { ev_t e[MAXN]; int n, mono; reader_t *r; } trace_t;
static int used, smin, smax;
static int64_t objsize[MAXN], unit = 1;

static void put_num(char *b, long *len, uint64_t v) {
  char t[24];
  int k = 0;
  do t[k++] = (char)('0' + v % 10); while (v /= 10);
  while (k) b[(*len)++] = t[--k];
}
static void mktrace(trace_t *t, const char *name, int n, int start) {
  const char *kind = lc_sparam("kind", "bin");
  char *buf = calloc(1, 4096);
  long len = 0;
  int64_t clock = start;
  int reps = !strcmp(kind, "csvcnt");
  trace_type_e type = ORACLE_GENERAL_TRACE;
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_obj_size = false;
  for (int i = 0; i < n; i++) {
    uint64_t k = lc_choose("obj", (uint64_t)used + 1);
    if ((int)k == used) { objsize[used] = unit * (smin == smax ? smin : smin + (int64_t)lc_choose("size", (uint64_t)(smax - smin + 1))); used++; }
    if (i > 0 && lc_param("clocks", 0)) clock += (int64_t)lc_choose("gap", 3);
    ev_t e = {.id = 17 + 101 * k, .size = objsize[k], .clock = clock, .next = reps ? -2 : INT64_MAX};
    int64_t next = INT64_MAX, cnt = reps ? 1 + (int64_t)lc_choose("count", 2) : 1;
    for (int64_t c = 0; c < cnt; c++) t->e[t->n++] = e;
    if (reps) {
      put_num(buf, &len, (uint64_t)clock); buf[len++] = ',';
      put_num(buf, &len, e.id); buf[len++] = ',';
      put_num(buf, &len, (uint64_t)e.size); buf[len++] = ',';
      put_num(buf, &len, (uint64_t)cnt); buf[len++] = '\n';
    } else {
      *(uint32_t *)(buf + len) = (uint32_t)clock;
      memcpy(buf + len + 4, &e.id, 8);
      *(uint32_t *)(buf + len + 12) = (uint32_t)e.size;
      memcpy(buf + len + 16, &next, 8);
      len += 24;
    }
  }
  if (!reps)  // truthful next-access times, for the policies that use them
    for (int i = 0; i < t->n; i++)
      for (int j = i + 1; j < t->n; j++)
        if (t->e[i].id == t->e[j].id) { t->e[i].next = j + 1; memcpy(buf + 24 * i + 16, &t->e[i].next, 8); break; }
  if (reps) {
    type = CSV_TRACE;
    ip.has_header_set = true;
    ip.has_header = false;
    ip.delimiter = ',';
    ip.obj_id_is_num = true;
    ip.time_field = 1;
    ip.obj_id_field = 2;
    ip.obj_size_field = 3;
    ip.cnt_field = 4;
  }
  t->r = open_trace(lc_file(name, buf, (size_t)len), type, &ip);
  free(buf);
}

static request_t *q;
static void expected(cache_t *c, const trace_t *t, const trace_t *warm, int64_t nwarm, int wsec, cache_stat_t *s) {
  memset(s, 0, sizeof *s);
  set_rand_seed(0);
  for (int i = 0; warm && i < warm->n; i++) {
    q->obj_id = warm->e[i].id;
    q->obj_size = warm->e[i].size;
    q->clock_time = warm->e[i].clock;
    q->next_access_vtime = warm->e[i].next;
    c->get(c, q);
    s->n_warmup_req++;
  }
  int warming = 1;
  for (int i = 0; i < t->n; i++) {
    q->obj_id = t->e[i].id;
    q->obj_size = t->e[i].size;
    q->clock_time = t->e[i].clock - t->e[0].clock;
    q->next_access_vtime = t->e[i].next;
    if (!(i < nwarm || q->clock_time < wsec)) warming = 0;
    bool hit = c->get(c, q);
    if (warming) { s->n_warmup_req++; continue; }
    s->n_req++;
    s->n_req_byte += t->e[i].size;
    if (!hit) { s->n_miss++; s->n_miss_byte += t->e[i].size; }
  }
  s->n_obj = c->get_n_obj(c);
  s->occupied_byte = c->get_occupied_byte(c);
  s->cache_size = c->cache_size;
  s->curr_rtime = t->e[t->n - 1].clock - t->e[0].clock;
  strncpy(s->cache_name, c->cache_name, CACHE_NAME_ARRAY_LEN);
}
static void same(const cache_stat_t *a, const cache_stat_t *e) {
  lc_check(a->n_warmup_req == e->n_warmup_req, "wrong number of warm-up requests");
  lc_check(a->n_req == e->n_req && a->n_req_byte == e->n_req_byte, "wrong number of requests or requested bytes");
  lc_check(a->n_miss == e->n_miss, "the misses differ from those of a fresh cache");
  lc_check(a->n_miss_byte == e->n_miss_byte, "the missed bytes differ from those of a fresh cache");
  lc_check(a->n_obj == e->n_obj && a->occupied_byte == e->occupied_byte, "the reported cache contents differ from those of a fresh cache");
  lc_check(a->cache_size == e->cache_size, "the result is not that of the requested cache size");
  lc_check(a->curr_rtime == e->curr_rtime, "the reported trace time is not that of the last request");
  lc_check(strncmp(a->cache_name, e->cache_name, CACHE_NAME_ARRAY_LEN) == 0, "the result names another cache");
  if (e->n_miss < e->n_req) lc_cover("hit");
  if (e->n_warmup_req > 0) lc_cover("warm-up");
}

void lc_main(void) {
  const char *algo = lc_sparam("algo", "lru"), *algo2 = lc_sparam("algo2", algo), *cp = lc_sparam("cparams", ""), *what = lc_sparam("what", "sizes");
  int n = (int)lc_param("n", 4), nc = (int)lc_param("caches", 2), threads = (int)lc_param("threads", 2), wsec = 0;
  int64_t size = lc_param("size", 2), nwarm = 0;
  const char *warm = lc_sparam("warm", "none");
  double frac = 0;
  unit = lc_param("unit", 1);
  smin = (int)lc_param("smin", 1);
  smax = (int)lc_param("smax", 1);
  static trace_t t, w;
  mktrace(&t, "trace", n, (int)lc_param("start", 5));
  trace_t *wt = NULL;
  if (!strcmp(warm, "reader")) { mktrace(&w, "warm", (int)lc_param("nwarm", 2), 3); wt = &w; }
  if (!strcmp(warm, "sec")) wsec = 1 + (int)lc_choose("sec", 4);
  if (!strcmp(warm, "frac")) {
    static const double f[] = {0.1, 0.25, 0.34, 0.5, 0.75, 1.0};
    frac = f[lc_choose("frac", 6)];
    nwarm = (int64_t)floor((double)t.n * frac);
  }
  q = mkreq(0, 1);
  cache_stat_t *res, e;
  if (!strcmp(what, "caches")) {
    cache_t *cs[4];
    int keep = (int)lc_choose("keep", 2);
    for (int i = 0; i < nc; i++) cs[i] = mkcache(i % 2 ? algo2 : algo, (size + i) * unit, i % 2 ? NULL : cp, 0);
    res = simulate_with_multi_caches(t.r, cs, nc, wt ? w.r : NULL, frac, wsec, threads, !keep);
    for (int i = 0; i < nc; i++) {
      cache_t *c = mkcache(i % 2 ? algo2 : algo, (size + i) * unit, i % 2 ? NULL : cp, 0);
      expected(c, &t, wt, nwarm, wsec, &e);
      same(&res[i], &e);
      if (keep) {
        lc_check(cs[i]->get_n_obj(cs[i]) == c->get_n_obj(c), "the cache that was kept has other contents");
        cs[i]->cache_free(cs[i]);
      }
      c->cache_free(c);
    }
  } else {
    int step = !strcmp(what, "step");
    cache_t *base = mkcache(algo, step ? size : (size + 7) * unit, cp, 0);
    uint64_t sizes[4];
    if (step) {
      int64_t st = lc_param("step", 2);
      res = simulate_at_multi_sizes_with_step_size(t.r, base, (uint64_t)st, wt ? w.r : NULL, frac, wsec, threads);
      nc = (int)((size + st - 1) / st);
      for (int i = 0; i < nc; i++) sizes[i] = (uint64_t)(st * (i + 1));
    } else {
      for (int i = 0; i < nc; i++) sizes[i] = (uint64_t)(lc_param("desc", 0) ? size + nc - 1 - i : size + i) * (uint64_t)unit;
      res = simulate_at_multi_sizes(t.r, base, nc, sizes, wt ? w.r : NULL, frac, wsec, threads);
    }
    for (int i = 0; i < nc; i++) {
      cache_t *c = mkcache(algo, (int64_t)sizes[i], cp, 0);
      expected(c, &t, wt, nwarm, wsec, &e);
      same(&res[i], &e);
      c->cache_free(c);
    }
    base->cache_free(base);
  }
  free(res);
  close_reader(t.r);
  if (wt) close_reader(w.r);
  lc_done();
}
