// Stubs shared by the engine and the native replay.
#include "lc.h"
#undef next_rand
static uint64_t real_next_rand(void) { return next_rand(); }
int lc_hash_real = 0;
static int hash_mode = -1;
uint64_t (*lc_hash_fn)(const void *key, uint64_t len) = 0;
// 0: every key collides, 1: the key itself, 2: the real hash function
static uint64_t hk[64], hv[64];
static int hn;
uint64_t lc_hash_hook(const void *key, uint64_t len, uint64_t real) {
  if (hash_mode < 0) hash_mode = (int)lc_param("hash", 0);
  if (lc_hash_fn) return lc_hash_fn(key, len);
  if (hash_mode == 1) return *(const uint64_t *)key;
  if (hash_mode == 2) return real;
  if (hash_mode >= 3) {  // 3: distinct keys get 0, 1, 2, ...; 4: each distinct key gets an arbitrary value of `hashbits` bits
    uint64_t k = *(const uint64_t *)key;
    for (int i = 0; i < hn; i++)
      if (hk[i] == k) return hv[i];
    if (hn == 64) lc_assume(false);
    hk[hn] = k;
    hv[hn] = hash_mode == 3 ? hn : lc_choose("hash", 1ull << lc_param("hashbits", 1));
    return hv[hn++];
  }
  return 0;
}
// the hash of the bloom filters: arbitrary per key and seed when a harness asks for it
int lc_xxh_hooked = 0;
uint64_t (*lc_xxh_fn)(const void *key, uint64_t len, uint64_t seed) = 0;
uint64_t lc_xxh_hook(const void *key, uint64_t len, uint64_t seed) { return lc_xxh_fn(key, len, seed); }
void lc_use_real_hash(int on) { lc_hash_real = on; hash_mode = on ? 2 : (int)lc_param("hash", 0); }
// the generator: arbitrary values; several streams may share one value sequence (twin caches)
#define LC_RANDMAX 64
static uint64_t rv[LC_RANDMAX];
static int rn, rpos[4], rcur;
void lc_rand_stream(int s) { rcur = s; }
int lc_rand_used(void) { return rpos[rcur]; }
uint64_t lc_next_rand(void) {
  if (lc_param("realrand", 0)) return real_next_rand();
  int *p = &rpos[rcur];
  if (*p >= LC_RANDMAX || *p >= lc_param("maxrand", LC_RANDMAX)) {  // the later draws are one fixed pseudo-random sequence
    uint64_t x = 0x9e3779b97f4a7c15ull * (uint64_t)++*p;
    x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ x >> 27) * 0x94d049bb133111ebull;
    return x ^ x >> 31;
  }
  if (*p >= rn) { int64_t b = lc_param("randbits", 4); rv[rn++] = b >= 64 ? lc_sym("rand", 64) : lc_range("rand", 0, ((uint64_t)1 << b) - 1); }
  return rv[(*p)++];
}
// when and where the tasks of a thread pool run
int lc_sched_now(int pending) { return (int)lc_choose("now", 2) && pending; }
int lc_sched_pick(int pending) { return pending > 1 ? (int)lc_choose("task", (uint64_t)pending) : 0; }
int lc_sched_thread(int threads, int max) {
  if (threads == 0) return 1;
  if (threads >= max) return 1 + (threads > 1 ? (int)lc_choose("thread", (uint64_t)threads) : 0);
  return 1 + (int)lc_choose("thread", (uint64_t)threads + 1);
}
