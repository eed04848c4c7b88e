// Bloom filter and counting bloom filter: arbitrary hash values for every key, arbitrary sequences of additions.
#include "lc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dataStructure/bloom.h"
#include "dataStructure/minimalIncrementCBF.h"
extern int lc_xxh_hooked;
extern uint64_t (*lc_xxh_fn)(const void *key, uint64_t len, uint64_t seed);
#define MAXK 6
static uint64_t keys[MAXK], seeds[4];
static uint64_t hv[MAXK][4];
static bool hset[MAXK][4];
static int nseeds;
static uint64_t span;
static const uint64_t *pick;
static uint64_t xh(const void *key, uint64_t len, uint64_t seed) {
  uint64_t k = 0;
  memcpy(&k, key, len);
  int i = 0, s = 0;
  while (i < MAXK && keys[i] != k) i++;
  lc_check(i < MAXK, "something else than the given element is hashed");
  while (s < nseeds && seeds[s] != seed) s++;
  if (s == nseeds) { lc_assume(nseeds < 4); seeds[nseeds++] = seed; }
  if (!hset[i][s]) {
    hset[i][s] = true;
    hv[i][s] = pick ? pick[lc_choose("hash", span)] : lc_range("hash", 0, span - 1);
  }
  return hv[i][s];
}

static void bloom(int K, int L) {
  struct bloom b;
  memset(&b, 0, sizeof b);
  int bits = (int)lc_param("bits", 11), real = (int)lc_param("init", 0);
  static uint64_t ends[6];
  if (real) {
    int entries = 1000 + (int)lc_choose("entries", 8);
    lc_check(bloom_init(&b, entries, 0.25) == 0, "init failed");
    lc_check(b.bits > 0 && b.hashes > 0 && (int64_t)b.bytes * 8 >= b.bits, "the filter has no room for its bits");
    ends[0] = 0; ends[1] = (uint64_t)b.bits - 1; ends[2] = (uint64_t)b.bits; ends[3] = 0xffffffffull; ends[4] = 0x80000000ull; ends[5] = ~0ull;
    pick = ends;
    span = 6;
  } else {
    b.entries = 1000; b.error = 0.1; b.bits = bits; b.bytes = (bits + 7) / 8; b.hashes = (int)lc_param("hashes", 2); b.bpe = 1;
    b.bf = calloc((size_t)b.bytes, 1);
    b.ready = 1;
    span = lc_param("full", 0) ? 1ull << 32 : (uint64_t)bits;
  }
  bool added[MAXK] = {0};
  for (int t = 0; t < L; t++) {
    int k = (int)lc_choose("key", (uint64_t)K);
    if (lc_choose("op", 2) == 0) {
      int r = bloom_add(&b, &keys[k], sizeof keys[k]);
      lc_check(r == 0 || r == 1, "add failed");
      lc_check(r == 1 || !added[k], "add says an element that was added before is new");
      added[k] = true;
    } else {
      bool any = false;
      for (int j = 0; j < K; j++) any |= added[j];
      int r = bloom_check(&b, &keys[k], sizeof keys[k]);
      lc_check(r == 0 || r == 1, "check failed");
      lc_check(any || r == 0, "an empty filter reports an element as present");
    }
    for (int j = 0; j < K; j++)
      if (added[j]) { lc_check(bloom_check(&b, &keys[j], sizeof keys[j]) == 1, "an added element is reported as absent"); lc_cover("added"); }
  }
  lc_check(bloom_reset(&b) == 0, "reset failed");
  for (int j = 0; j < K; j++) lc_check(bloom_check(&b, &keys[j], sizeof keys[j]) == 0, "an element is present after a reset");
  bloom_free(&b);
}

static void cbf(int K, int L) {
  struct minimalIncrementCBF c;
  memset(&c, 0, sizeof c);
  int entries = (int)lc_param("entries", 1);
  static const double ERR[] = {0.5, 0.1, 0.01, 0.001};
  lc_check(minimalIncrementCBF_init(&c, entries, ERR[lc_param("err", 1)]) == 0, "init failed");
  lc_check(c.hashes > 0 && c.counter_num >= c.hashes, "too few counters");
  static uint64_t ends[5];
  if (c.counter_num > 12 || lc_param("many", 0)) {
    ends[0] = 0; ends[1] = (uint64_t)c.counter_num - 1; ends[2] = 1; ends[3] = 0xffffffffull; ends[4] = (uint64_t)c.counter_num;
    pick = ends;
    span = 5;
  } else span = (uint64_t)c.counter_num;
  int n[MAXK] = {0};
  int many = (int)lc_param("many", 0);  // this many additions of the first element before the free ones
  for (int t = 0; t < many; t++) {
    int r = minimalIncrementCBF_add(&c, &keys[0], sizeof keys[0]);
    lc_check(r >= ++n[0], "the count returned by an addition is below the number of additions");
    lc_check(minimalIncrementCBF_estimate(&c, &keys[0], sizeof keys[0]) >= n[0], "the estimate is below the number of additions");
  }
  for (int t = 0; t < L; t++) {
    int k = (int)lc_choose("key", (uint64_t)K);
    int r = minimalIncrementCBF_add(&c, &keys[k], sizeof keys[k]);
    n[k]++;
    lc_check(r >= n[k], "the count returned by an addition is below the number of additions");
    for (int j = 0; j < K; j++) {
      int e = minimalIncrementCBF_estimate(&c, &keys[j], sizeof keys[j]);
      lc_check(e >= n[j], "the estimate is below the number of additions");
      lc_check(minimalIncrementCBF_estimate(&c, &keys[j], sizeof keys[j]) == e, "estimating changes the estimate");
      lc_observe("est", (uint64_t)e);
    }
    lc_cover("added");
  }
  minimalIncrementCBF_free(&c);
}

void lc_main(void) {
  int K = (int)lc_param("keys", 2), L = (int)lc_param("ops", 3);
  for (int i = 0; i < MAXK; i++) keys[i] = 0x100000001ull * (uint64_t)(i + 1);
  lc_xxh_fn = xh;
  lc_xxh_hooked = 1;
  if (!strcmp(lc_sparam("what", "bloom"), "bloom")) bloom(K, L);
  else cbf(K, L);
}
