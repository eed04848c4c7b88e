// S02, S03: reuse distances and the LRU profile of every short trace.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "cachemk.h"
#include "include/libCacheSim/dist.h"
#include "include/libCacheSim/profilerLRU.h"
#include "include/libCacheSim/reader.h"
#include "include/libCacheSim/sampling.h"

extern void cnt_dist(const int32_t *dist_array, const int64_t array_size, GHashTable *hash_table);
#define MAXN 160
static uint64_t E_id[MAXN];
static int same_as[MAXN];  // the first request to the same object
static int n;

static reader_t *make_trace(void) {
  const char *kind = lc_sparam("kind", "bin");
  char *buf = calloc(1, 4096);
  long len = 0;
  int idbits = (int)lc_param("idbits", 64), big = (int)lc_param("canon", 0), used = 0;
  trace_type_e type = ORACLE_GENERAL_TRACE;
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_obj_size = lc_param("nosize", 0) != 0;
  // a fixed beginning over "objs" objects brings the tree to a populated state
  int pre = (int)lc_param("pre", 0), objs = (int)lc_param("objs", 12);
  uint64_t x = (uint64_t)lc_param("seed", 1) * 0x9e3779b97f4a7c15ull;
  if (!strcmp(kind, "bin")) {
    for (int i = 0; i < n; i++, len += 24) {
      if (i < pre) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        int k = (int)((x >> 33) % (uint64_t)objs);
        if (k >= used) k = used++;
        E_id[i] = 0x9e3779b97f4a7c15ull * ((uint64_t)k + 1);
      } else if (big) {  // ids named by the order of their first request
        uint64_t k = lc_choose("obj", (uint64_t)used + 1);
        if ((int)k == used) used++;
        E_id[i] = 0x9e3779b97f4a7c15ull * (k + 1);
      } else
        E_id[i] = lc_sym("id", idbits);
      *(uint32_t *)(buf + len) = (uint32_t)(3 * i + 5);
      memcpy(buf + len + 4, &E_id[i], 8);
      *(uint32_t *)(buf + len + 12) = 1;
      *(int64_t *)(buf + len + 16) = -2;
    }
  } else if (!strcmp(kind, "csvcnt")) {  // every line stands for one to three requests
    type = CSV_TRACE;
    ip.obj_id_is_num = true;
    ip.has_header = false; ip.has_header_set = true;
    ip.delimiter = ',';
    ip.time_field = 1; ip.obj_id_field = 2; ip.obj_size_field = 3; ip.cnt_field = 4;
    int lines = n;
    n = 0;
    for (int i = 0; i < lines; i++) {
      uint64_t id = lc_range("digit", 0, 9), c = 1 + lc_choose("count", 3);
      for (uint64_t k = 0; k < c; k++) E_id[n++] = id;
      const char head[] = {(char)('1' + i), ',', (char)('0' + (int)id), ',', '1', ',', (char)('0' + (int)c), '\n'};
      memcpy(buf + len, head, sizeof head);
      len += sizeof head;
    }
  } else {  // txt: one-digit ids
    type = PLAIN_TXT_TRACE;
    ip.obj_id_is_num = true;
    for (int i = 0; i < n; i++) {
      E_id[i] = lc_range("digit", 0, 9);
      buf[len++] = (char)('0' + (int)E_id[i]);
      buf[len++] = '\n';
    }
  }
  int every = (int)lc_param("every", 0), zero = (int)lc_param("zero", 0);
  if (zero) {  // requests of size zero are not read
    int k = 0;
    ip.ignore_size_zero_req = true;
    for (int i = 0; i < n; i++) {
      int z = (int)lc_choose("zero", 2);
      if (z) *(uint32_t *)(buf + 24 * i + 12) = 0;
      else E_id[k++] = E_id[i];
    }
    n = k;
  }
  if (every) {  // every second, third... request is read
    ip.sampler = create_temporal_sampler(1.0 / every);
    for (int i = 0; (i + 1) * every - 1 < n; i++) E_id[i] = E_id[(i + 1) * every - 1];
    n /= every;
  }
  int cap = (int)lc_param("cap", 0);
  if (cap) { ip.cap_at_n_req = cap; if (n > cap) n = cap; }
  for (int i = 0; i < n; i++) {
    same_as[i] = i;
    for (int j = 0; j < i; j++)
      if (same_as[j] == j && E_id[i] == E_id[j]) { same_as[i] = j; break; }
  }
  reader_t *r = open_trace(lc_file("trace", buf, (size_t)len), type, &ip);
  free(buf);
  return r;
}
static int prev_of(int i) { for (int j = i - 1; j >= 0; j--) if (same_as[j] == same_as[i]) return j; return -1; }
static int next_of(int i) { for (int j = i + 1; j < n; j++) if (same_as[j] == same_as[i]) return j; return -1; }
static int distinct_between(int a, int b) {  // strictly between
  int c = 0;
  for (int k = a + 1; k < b; k++) {
    int seen = 0;
    for (int j = a + 1; j < k; j++) seen |= same_as[j] == same_as[k];
    c += !seen;
  }
  return c;
}

static void distances(reader_t *r) {
  int64_t size = -1;
  int again = 0;
  for (int pass = 0; pass < 1 + (int)lc_param("again", 0); pass++) {
    int32_t *a = get_stack_dist(r, STACK_DIST, &size), *f = get_stack_dist(r, FUTURE_STACK_DIST, &size);
    lc_check(size == n, "the number of distances is not the number of requests");
    int32_t *l = get_access_dist(r, DIST_SINCE_LAST_ACCESS, &size), *s = get_access_dist(r, DIST_SINCE_FIRST_ACCESS, &size);
    lc_check(size == n, "the number of distances is not the number of requests");
    for (int i = 0; i < n; i++) {
      int p = prev_of(i), x = next_of(i);
      lc_check(a[i] == (p < 0 ? -1 : distinct_between(p, i)), "wrong stack distance");
      lc_check(f[i] == (x < 0 ? -1 : distinct_between(i, x)), "wrong future stack distance");
      lc_check(l[i] == (p < 0 ? -1 : i - p), "wrong distance since the last access");
      lc_check(s[i] == (p < 0 ? -1 : i - same_as[i]), "wrong distance since the first access");
      if (p >= 0) again = 1;
    }
    for (int t = 0; t < 4; t++) {
      int32_t *d = t == 0 ? a : t == 1 ? f : t == 2 ? l : s;
      GHashTable *h = g_hash_table_new_full(g_direct_hash, g_direct_equal, NULL, NULL);
      cnt_dist(d, n, h);
      for (int i = 0; i < n; i++) {
        int64_t key = d[i] == -1 ? INT64_MAX : d[i];
        size_t cnt = 0;
        for (int j = 0; j < n; j++) cnt += d[j] == d[i];
        lc_check((size_t)g_hash_table_lookup(h, GSIZE_TO_POINTER((gsize)key)) == cnt, "wrong distance count");
      }
      g_hash_table_destroy(h);
      free(d);
    }
  }
  if (again) lc_cover("reuse");
}

static void profile(reader_t *r) {
  int maxsize = (int)lc_param("maxsize", n + 1);
  int hit = 0;
  double *mr = get_lru_obj_miss_ratio(r, maxsize), *mc = get_lru_obj_miss_ratio_curve(r, maxsize);
  for (int s = 0; s <= maxsize; s++) {
    int miss = n;
    if (s > 0) {
      cache_t *c = mkcache("lru", s, NULL, 0);
      request_t *q = mkreq(0, 1);
      miss = 0;
      for (int i = 0; i < n; i++) {
        q->obj_id = E_id[i];
        if (!c->get(c, q)) miss++;
      }
      free_request(q);
      c->cache_free(c);
    }
    if (miss < n) hit = 1;
    lc_check(mr[s] == (double)miss / (double)n || n == 0, "the LRU profile differs from an LRU cache");
    lc_check(mc[s] == mr[s] || n == 0, "the miss ratio curve differs from the miss ratios");
  }
  free(mr);
  free(mc);
  if (hit) lc_cover("reuse");
}

static void files(reader_t *r) {
  int32_t v[MAXN];
  for (int i = 0; i < n; i++) v[i] = (int32_t)lc_sym("dist", 32);
  static const char *suffix[] = {"DIST_SINCE_LAST_ACCESS", "DIST_SINCE_FIRST_ACCESS", "STACK_DIST", "FUTURE_STACK_DIST"};
  int t = (int)lc_choose("type", 4);
  const char *base = lc_newfile("dist");
  char path[600];
  save_dist(r, v, n, base, (dist_type_e)t);
  strcpy(path, base);
  strcat(path, ".");
  strcat(path, suffix[t]);
  int64_t size = -1;
  int32_t *w = load_dist(r, path, &size);
  lc_check(size == n, "the number of loaded distances is wrong");
  for (int i = 0; i < n; i++) lc_check(w[i] == v[i], "a distance changed on the way through a file");
  free(w);
  lc_cover("reuse");
}

void lc_main(void) {
  const char *what = lc_sparam("what", "dist");
  n = (int)lc_param("n", 4);
  reader_t *r = make_trace();
  if (!strcmp(what, "dist")) distances(r);
  else if (!strcmp(what, "lru")) profile(r);
  else files(r);
  close_reader(r);
  lc_done();
}
