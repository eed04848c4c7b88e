// Admission policies: arbitrary request sequences (64-bit ids, 63-bit sizes), arbitrary draws, parameters from text,
// the policy alone, its clone, and the policy attached to a cache.
#include "hist.h"
#include "include/libCacheSim/admissionAlgo.h"

static request_t *rq(obj_id_t id, int64_t size) { return mkreq(id, size); }

static void bloom(int L) {
  admissioner_t *a[2] = {create_admissioner("bloomfilter", NULL), NULL};
  obj_id_t seen[2][MAXOPS];
  int ns[2] = {0, 0};
  for (int t = 0; t < L; t++) {
    int w = a[1] ? (int)lc_choose("which", 2) : 0;
    if (!a[1] && t && lc_choose("clone", 2)) { a[1] = a[0]->clone(a[0]); lc_check(a[1] && a[1] != a[0], "clone did not return a new policy"); lc_cover("cloned"); w = 1; }
    obj_id_t id = lc_sym("id", 64);
    bool known = false;
    for (int i = 0; i < ns[w]; i++) if (seen[w][i] == id) known = true;
    request_t *r = rq(id, (int64_t)lc_range("size", 1, INT64_MAX));
    bool ok = a[w]->admit(a[w], r);
    lc_observe("admit", ok);
    lc_check(ok == known, known ? "an id seen before was rejected" : "an id seen for the first time was admitted");
    if (!known) seen[w][ns[w]++] = id;
    if (known) lc_cover("admitted");
    free_request(r);
  }
  for (int w = 0; w < 2; w++) if (a[w]) a[w]->free(a[w]);
}

static void prob(int L) {
  static const struct { const char *s; int64_t thr; } P[] = {{NULL, 5000000}, {"prob=0.5", 5000000}, {"prob=0.25", 2500000}, {"prob=1", 10000000}, {"prob=0.0000001", 1},
    {"PROB=0.75", 7500000}, {"prob=0.125", 1250000}, {"prob=0.9375", 9375000}, {"prob=0.03125", 312500}};
  int k = (int)lc_choose("prob", sizeof P / sizeof *P);
  admissioner_t *a = create_admissioner("prob", P[k].s);
  for (int t = 0; t < L; t++) {
    if (t == 1) {
      admissioner_t *b = a->clone(a);
      a->free(a);
      a = b;
    }
    lc_rand_stream(1);
    uint64_t draw = lc_next_rand();
    lc_rand_stream(0);
    obj_id_t id = lc_sym("id", 64);
    request_t *r = rq(id, (int64_t)lc_range("size", 1, INT64_MAX));
    bool ok = a->admit(a, r);
    lc_observe("admit", ok);
    lc_check(ok == ((int64_t)(draw % 10000000) < P[k].thr), "the admission differs from comparing the draw with the configured probability");
    lc_cover(ok ? "admitted" : "rejected");
    free_request(r);
  }
  a->free(a);
}

static void size(int L) {
  int mode = (int)lc_choose("mode", 2);
  char s[64] = "size=";
  int64_t thr = INT64_MAX;
  if (mode) {
    int nd = 1 + (int)lc_choose("digits", 4), n = 5;
    thr = 0;
    for (int i = 0; i < nd; i++) {
      int d = (int)lc_range("d", i == 0 ? 1 : 0, 9);
      s[n++] = (char)('0' + d);
      thr = thr * 10 + d;
    }
    s[n] = 0;
  }
  admissioner_t *a = create_admissioner("size", mode ? s : NULL);
  for (int t = 0; t < L; t++) {
    if (t == 1) {
      admissioner_t *b = a->clone(a);
      a->free(a);
      a = b;
    }
    int64_t sz = (int64_t)lc_range("size", 0, INT64_MAX);
    request_t *r = rq(lc_sym("id", 64), sz);
    bool ok = a->admit(a, r);
    lc_observe("admit", ok);
    lc_check(ok == (sz < thr), "the admission differs from comparing the size with the threshold");
    lc_cover(ok ? "admitted" : "rejected");
    free_request(r);
  }
  a->free(a);
}

// attached to a cache that is cloned or copied with a new size part of the way
static void attached(int L, int kind) {
  cache_t *c = mkcache("lru", 2 * L * 4, "", 0);
  int64_t thr = 3;
  c->admissioner = kind == 0 ? create_admissioner("bloomfilter", NULL) : create_admissioner("size", "size=3");
  smin = 1; smax = kind == 0 ? 1 : 4; idbits = 64;
  uint64_t asked = 0, in = 0;
  int cl = (int)lc_choose("clone_at", (uint64_t)L);
  for (int t = 0; t < L; t++) {
    if (t && t == cl) {
      cache_t *d = lc_choose("resize", 2) ? create_cache_with_new_size(c, (uint64_t)L * 4) : clone_cache(c);
      c->cache_free(c);
      c = d;
      lc_check(c->admissioner != NULL, "the copied cache lost its admission policy");
      asked = in = 0;
    }
    int i = any_obj();
    bool hit = get(c, i, -2);
    lc_check(hit == (in >> i & 1), "hit differs from what the admission policy let in");
    bool adm = kind == 0 ? asked >> i & 1 : szs[i] < thr;
    asked |= 1ull << i;
    if (adm) in |= 1ull << i;
    lc_check(found_set(c) == in, "the cached set differs from the admitted objects");
    lc_observe("set", in);
    if (hit) lc_cover("hit");
  }
  c->cache_free(c);
}

void lc_main(void) {
  int L = (int)lc_param("ops", 4);
  const char *a = lc_sparam("adm", "bloom");
  if (!strcmp(a, "bloom")) bloom(L);
  else if (!strcmp(a, "prob")) prob(L);
  else if (!strcmp(a, "size")) size(L);
  else attached(L, (int)lc_param("kind", 0));
}
