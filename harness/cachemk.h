#pragma once
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "lc.h"
#include "include/libCacheSim/cache.h"
#include "include/libCacheSim/evictionAlgo.h"

static inline cache_t *mkcache_hp(const char *algo, int64_t size, const char *params, int md, int hp) {
  common_cache_params_t p = {.cache_size = (uint64_t)size, .default_ttl = 86400 * 300, .hashpower = hp, .consider_obj_metadata = md != 0};
  const char *q = params && params[0] ? params : NULL;
#define A(n, f) if (strcasecmp(algo, n) == 0) return f(p, q)
  A("lru", LRU_init); A("fifo", FIFO_init); A("arc", ARC_init); A("arcv0", ARCv0_init); A("lhd", LHD_init); A("random", Random_init);
  A("randomtwo", RandomTwo_init); A("lfu", LFU_init); A("gdsf", GDSF_init); A("lfuda", LFUDA_init); A("twoq", TwoQ_init); A("slru", SLRU_init);
  A("slruv0", SLRUv0_init); A("hyperbolic", Hyperbolic_init); A("lecar", LeCaR_init); A("lecarv0", LeCaRv0_init); A("randomlru", RandomLRU_init);
  A("cacheus", Cacheus_init); A("size", Size_init); A("lfucpp", LFUCpp_init); A("wtinylfu", WTinyLFU_init); A("belady", Belady_init); A("nop", nop_init);
  A("beladysize", BeladySize_init); A("clock", Clock_init); A("lirs", LIRS_init); A("fifomerge", FIFO_Merge_init); A("flashprob", flashProb_init);
  A("sfifo", SFIFO_init); A("sfifov0", SFIFOv0_init); A("lru-prob", LRU_Prob_init); A("fifo-belady", FIFO_Belady_init); A("lru-belady", LRU_Belady_init);
  A("sieve-belady", Sieve_Belady_init); A("s3lru", S3LRU_init); A("s3fifo", S3FIFO_init); A("s3fifod", S3FIFOd_init); A("qdlp", QDLP_init); A("sieve", Sieve_init);
  A("mru", MRU_init); A("fiforeinsertion", FIFO_Reinsertion_init); A("lruv0", LRUv0_init); A("cr_lfu", CR_LFU_init); A("sr_lru", SR_LRU_init);
#ifdef INCLUDE_PRIV
  A("mclock", MClock_init); A("lp-sfifo", LP_SFIFO_init); A("lp-arc", LP_ARC_init); A("lp-twoq", LP_TwoQ_init); A("qdlpv0", QDLPv0_init);
  A("s3fifodv2", S3FIFOdv2_init); A("mymqv1", myMQv1_init);
#endif
#undef A
  abort();
}
static inline cache_t *mkcache(const char *algo, int64_t size, const char *params, int md) { return mkcache_hp(algo, size, params, md, (int)lc_param("hashpower", 2)); }
static inline request_t *mkreq(obj_id_t id, int64_t size) {
  request_t *r = new_request();
  r->obj_id = id;
  r->obj_size = size;
  r->op = OP_GET;
  return r;
}
