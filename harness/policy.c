// One cache (or two in lock step) under an arbitrary history of public calls. Object ids are arbitrary 64-bit
// values, sizes arbitrary within bounds, operations, removal victims, admission answers and generator draws arbitrary.
#include "hist.h"
#include "include/libCacheSim/admissionAlgo.h"

// an admission policy that answers arbitrarily (the answer to each question is an input)
static int adm_asked, adm_refused, adm_from;  // requests before adm_from are all admitted
static bool adm_admit(struct admissioner *a, const request_t *r) {
  (void)a; (void)r;
  adm_asked++;
  bool ok = now < adm_from || lc_choose("admit", 2) == 0;
  if (!ok) adm_refused++;
  return ok;
}
static void adm_free(struct admissioner *a) { free(a); }
static struct admissioner *adm_clone(struct admissioner *a) { (void)a; return NULL; }

static bool evicted, hit_seen;

// the overhead charged per object: what the first cached object occupies beyond its size
static int64_t overhead = -1;
static void check_counts(cache_t *c, uint64_t set, const char *m1, const char *m2) {
  int64_t sum = 0;
  if (overhead < 0 && set) {
    overhead = lc_concretize((uint64_t)occ(c) - (uint64_t)(szs[__builtin_ctzll(set)]));
    lc_check(popc(set) > 1 || (lc_param("md", 0) ? overhead >= 0 && overhead <= 64 : overhead == 0), m2);
  }
  for (int k = 0; k < n_ids; k++)
    if (set >> k & 1) sum += szs[k] + overhead;
  lc_check(nob(c) == popc(set), m1);
  lc_check(occ(c) == sum, m2);
}

static void histories(int which, cache_t *c, int64_t C, int L, int with_remove, int sameset) {
  for (int t = 0; t < L; t++) {
    now = pre_n + t;
    step_t s = {GET, -1};
    if (pat) s = pat_step(c, pat[t]);
    else if (with_remove && t > 0) s.op = lc_choose("op", 2) ? REMOVE : GET;
    if (s.op == NOTHING) continue;
    if (s.op == GET) {
      int i = pat ? s.i : next_obj();
      int64_t na = the_next;
      uint64_t before = found_set(c);
      bool hit = get(c, i, na);
      uint64_t after = found_set(c);
      lc_observe("hit", hit);
      lc_observe("occ", occ(c));
      lc_observe("nobj", nob(c));
      lc_observe("set", after);
      if (hit) hit_seen = true;
      if (before & ~after) evicted = true;
      if (which == 1) lc_check(occ(c) <= C, "occupied bytes exceed the cache size after a request");
      if (which == 3) {
        lc_check(hit == ((before >> i) & 1), "a request reports a hit although the object was not cached, or a miss although it was");
        if (hit && sameset) lc_check((nav || truth) ? (after | 1ull << i) == before : after == before, "a hit changed the set of cached objects although all objects have the same size");
        lc_check((after & ~before & ~(1ull << i)) == 0, "an object that was not requested became cached");
      }
      if (which == 2) check_counts(c, after, "reported object count differs from the number of objects a lookup finds", "reported occupied bytes differ from the sum of the sizes of the cached objects");
    } else if (s.op == EVICT) {
      uint64_t before = found_set(c);
      request_t *r = mkreq(3, smin);
      r->clock_time = now;
      c->evict(c, r);
      free_request(r);
      uint64_t after = found_set(c);
      lc_observe("set", after);
      lc_check((after & ~before) == 0, "an eviction made an object cached");
      if (before & ~after) evicted = true;
    } else {
      // remove any object seen so far, cached or not
      int i = pat ? s.i : (int)lc_choose("victim", n_ids);
      uint64_t before = found_set(c);
      int64_t b_occ = occ(c), b_obj = nob(c);
      bool ok = c->remove(c, ids[i]);
      uint64_t after = found_set(c);
      lc_observe("removed", ok);
      lc_observe("occ", occ(c));
      lc_observe("set", after);
      if (before >> i & 1) lc_cover("removed a cached object");
      if (which == 4) {
        lc_check(ok == ((before >> i) & 1), "remove reports success for an object that was not cached, or failure for one that was");
        lc_check(after == (before & ~(1ull << i)), "remove changed the presence of another object, or left the object cached");
        lc_check(nob(c) == b_obj - (ok ? 1 : 0), "remove changed the object count by something other than the removed object");
        lc_check(occ(c) == b_occ - (ok ? szs[i] : 0), "remove changed the byte count by something other than the removed object");
      }
      if (which == 2) check_counts(c, after, "reported object count differs from the number of objects a lookup finds (after remove)", "reported occupied bytes differ from the sum of the sizes of the cached objects (after remove)");
    }
    if (which == 4 && with_remove) {
      // what follows a removal must be served correctly too
      lc_check(occ(c) <= C, "occupied bytes exceed the cache size in a history with removals");
      check_counts(c, found_set(c), "object count wrong in a history with removals", "byte count wrong in a history with removals");
    }
  }
}

// C05: two identical caches, the same history, but lookups without update are inserted into one of them
static void peeks(cache_t *a, cache_t *b, int L, int with_remove) {
  uint64_t peeked = 0;
  for (int t = 0; t < L; t++) {
    now = pre_n + t;
    step_t s = {GET, -1};
    lc_rand_stream(0);
    if (pat) s = pat_step(a, pat[t]);
    int op = pat ? (s.op == GET ? 0 : s.op == LOOKUP ? 1 : s.op == REMOVE ? 2 : 3) : (int)lc_choose("op", with_remove ? 3 : 2);
    if (op == 3) continue;
    if (op == 0) {
      int i = pat ? s.i : next_obj();
      int64_t na = the_next;
      lc_rand_stream(0);
      bool h1 = get(a, i, na);
      lc_rand_stream(1);
      bool h2 = get(b, i, na);
      lc_check(h1 == h2, "a lookup without update changed a later hit or miss");
      if (h1) hit_seen = true;
      lc_observe("hit", h1);
    } else if (op == 1) {
      int i = pat ? s.i : any_obj();
      lc_rand_stream(1);
      bool f = found(b, i);
      peeked = 1;
      lc_cover(f ? "lookup found" : "lookup not found");
    } else {
      if (n_ids == 0) continue;
      int i = pat ? s.i : (int)lc_choose("victim", n_ids);
      lc_rand_stream(0);
      bool r1 = a->remove(a, ids[i]);
      lc_rand_stream(1);
      bool r2 = b->remove(b, ids[i]);
      lc_check(r1 == r2, "a lookup without update changed the result of a removal");
    }
    lc_check(nob(a) == nob(b), "a lookup without update changed the object count");
    lc_check(occ(a) == occ(b), "a lookup without update changed the byte count");
  }
  (void)peeked;
  lc_rand_stream(0);
  uint64_t sa = found_set(a);
  lc_rand_stream(1);
  uint64_t sb = found_set(b);
  lc_check(sa == sb, "a lookup without update changed the set of cached objects");
  lc_observe("set", sa);
}

// C06: to_evict, then evict
static void announce(cache_t *c, int L, int with_remove) {
  for (int t = 0; t < L; t++) {
    now = pre_n + t;
    step_t s = {GET, -1};
    if (pat) s = pat_step(c, pat[t]);
    int op = pat ? (s.op == GET ? 0 : s.op == EVICT ? 1 : s.op == REMOVE ? 2 : 3) : t ? (int)lc_choose("op", with_remove ? 3 : 2) : 0;
    if (op == 3) continue;
    if (op == 0) {
      int i = pat ? s.i : next_obj();
      lc_observe("hit", get(c, i, the_next));
    } else if (op == 1) {
      if (nob(c) == 0) continue;
      uint64_t before = found_set(c);
      int64_t b_occ = occ(c), b_nob = nob(c);
      request_t *r = mkreq(0, 1);
      int i = pat ? new_obj() : any_obj();  // the request that needs the room
      r->obj_id = ids[i];
      r->obj_size = szs[i];
      r->clock_time = now;
      lc_assume(!(before >> i & 1));
      cache_obj_t *v = c->to_evict(c, r);
      lc_check(v != NULL, "no eviction candidate is announced although objects are cached");
      obj_id_t vid = v->obj_id;
      int64_t vsz = v->obj_size;
      int k = -1;
      for (int j = 0; j < n_ids; j++)
        if (ids[j] == vid) k = j;
      lc_check(k >= 0 && (before >> k & 1), "the announced eviction candidate is not cached");
      lc_check(found_set(c) == before && occ(c) == b_occ && nob(c) == b_nob, "asking for the eviction candidate changed the cache");
      int twice = (int)lc_choose("ask_twice", 2);
      if (twice) {
        cache_obj_t *v2 = c->to_evict(c, r);
        lc_check(v2 != NULL && v2->obj_id == vid, "asking again announces a different candidate");
      }
      c->evict(c, r);
      uint64_t after = found_set(c);
      lc_check(!(after >> k & 1), "the announced candidate survived the eviction that followed");
      lc_check(after == (before & ~(1ull << k)), "the eviction removed something other than the announced candidate");
      lc_check(nob(c) == b_nob - 1 && occ(c) == b_occ - vsz - c->obj_md_size, "the eviction changed the counts by something other than the announced candidate");
      lc_observe("victim", (uint64_t)k);
      lc_cover("candidate evicted");
      free_request(r);
    } else {
      int i = pat ? s.i : (int)lc_choose("victim", n_ids);
      c->remove(c, ids[i]);
    }
  }
}

// C07: oversized and refused requests
static void inadmissible(cache_t *c, int64_t C, int L, int adm) {
  adm_from = (int)lc_param("admfrom", 0);
  if (adm) {
    admissioner_t *a = calloc(1, sizeof *a);
    a->admit = adm_admit;
    a->free = adm_free;
    a->clone = adm_clone;
    c->admissioner = a;
  }
  for (int t = 0; t < L; t++) {
    now = pre_n + t;
    step_t s = {GET, -1};
    if (pat) s = pat_step(c, pat[t]);
    if (s.op == NOTHING) continue;
    if (s.op == REMOVE) { c->remove(c, ids[s.i]); continue; }
    int i = pat ? s.i : next_obj();
    uint64_t before = found_set(c);
    int64_t b_occ = occ(c), b_nob = nob(c);
    adm_refused = adm_asked = 0;
    bool hit = get(c, i, the_next);
    uint64_t after = found_set(c);
    lc_observe("hit", hit);
    lc_observe("set", after);
    bool refused = adm ? adm_refused > 0 : szs[i] + c->obj_md_size > C;
    if (!(before >> i & 1)) {
      if (adm) {
        // every new object goes past the admission policy unless something else already refused it
        if (!adm_asked) lc_check(!(after >> i & 1), "an object became cached without the admission policy being asked");
      }
      if (refused) {
        lc_cover("inadmissible request");
        lc_check(!hit, "an inadmissible request is reported as a hit");
        lc_check(!(after >> i & 1), "an inadmissible object became cached");
        lc_check((before & ~after) == 0, "an inadmissible request evicted a cached object");
        lc_check(after == before, "an inadmissible request made some object cached");
        lc_check(occ(c) == b_occ && nob(c) == b_nob, "an inadmissible request changed the byte or object count");
      }
    }
    lc_check(occ(c) <= C, "occupied bytes exceed the cache size");
  }
}

// C08: any public call, memory safety and termination only
static void anycalls(cache_t *c, int64_t C, int L, int evict_ok, int with_clone, int with_toev) {
  for (int t = 0; t < L; t++) {
    now = pre_n + t;
    step_t s = {GET, -1};
    if (pat) s = pat_step(c, pat[t]);
    int op = pat ? 0 : (int)lc_choose("op", 3 + evict_ok + with_clone + with_toev);
    if (pat) {
      if (s.op == NOTHING) continue;
      op = s.op == GET ? 0 : s.op == LOOKUP ? 1 : s.op == REMOVE ? 2 : 3;
    } else {
      if (op >= 3 && !evict_ok) op++;
      if (op >= 4 && !with_clone) op++;
    }
    if (op == 0) {
      int i = pat ? s.i : next_obj();
      lc_observe("hit", get(c, i, the_next));
    } else if (op == 1) {
      lc_observe("found", found(c, pat ? s.i : any_obj()));
    } else if (op == 2) {
      lc_observe("removed", c->remove(c, ids[pat ? s.i : any_obj()]));
    } else if (op == 3) {
      int i = pat ? new_obj() : any_obj();
      if (nob(c) == 0) continue;
      // the caller evicts to make room for a request that fits and is not cached
      lc_assume(szs[i] + c->obj_md_size <= C && !found(c, i));
      request_t *r = req_of(i);
      c->evict(c, r);
      free_request(r);
      lc_cover("evict");
    } else if (op == 4) {
      cache_t *d = clone_cache(c);
      c->cache_free(c);
      c = d;
      lc_cover("clone");
    } else {
      int i = any_obj();
      if (nob(c) == 0) continue;
      lc_assume(szs[i] + c->obj_md_size <= C && !found(c, i));
      request_t *r = req_of(i);
      cache_obj_t *v = c->to_evict(c, r);
      lc_check(v != NULL, "no eviction candidate is announced although objects are cached");
      lc_observe("candidate", v->obj_id);
      free_request(r);
      lc_cover("to_evict");
    }
    lc_observe("nobj", nob(c));
  }
  c->cache_free(c);
}

// K01: a cache is cloned or resized after a history; the copy, a fresh cache, the original and an undisturbed twin run on
static cache_t *outfit(cache_t *c);
static void clones(cache_t *o, cache_t *u, int64_t C, int L1, int L2, const char *algo, const char *cp, int md, int hp, int64_t C2) {
  for (int t = 0; t < L1; t++) {
    now = pre_n + t;
    lc_rand_stream(0);
    step_t s = {GET, -1};
    if (pat) s = pat_step(o, pat[t]);
    if (s.op == NOTHING) continue;
    int i = pat ? s.i : next_obj();
    int64_t na = the_next;
    lc_rand_stream(0);
    get(o, i, na);
    lc_rand_stream(1);
    get(u, i, na);
  }
  int resize = C2 != C;
  lc_rand_stream(2);
  cache_t *d = resize ? create_cache_with_new_size(o, (uint64_t)C2) : clone_cache(o);
  lc_rand_stream(3);
  cache_t *f = outfit(mkcache_hp(algo, C2, cp, md, hp));
  lc_check(d->cache_size == C2, "the copy does not have the requested size");
  lc_check(strcmp(d->cache_name, f->cache_name) == 0, "the copy has a different name or parameters than a fresh cache");
  lc_check(d->obj_md_size == f->obj_md_size, "the copy charges a different per-object overhead");
  lc_rand_stream(2);
  lc_check(nob(d) == 0 && occ(d) == 0 && found_set(d) == 0, "the copy is not empty");
  for (int t = 0; t < L2; t++) {
    now = pre_n + L1 + t;
    lc_rand_stream(2);
    step_t s = {GET, -1};
    if (pat) s = pat_step(d, pat[L1 + t]);
    if (s.op == NOTHING) continue;
    int i = pat ? s.i : next_obj();
    int64_t na = the_next;
    lc_rand_stream(2);
    bool h1 = get(d, i, na);
    lc_rand_stream(3);
    bool h2 = get(f, i, na);
    lc_check(h1 == h2, "the copy serves a request differently from a fresh cache");
    lc_check(nob(d) == nob(f) && occ(d) == occ(f), "the copy's counts differ from a fresh cache's");
    lc_observe("hit", h1);
    lc_rand_stream(0);
    bool h3 = get(o, i, na);
    lc_rand_stream(1);
    bool h4 = get(u, i, na);
    lc_check(h3 == h4, "copying the cache changed how the original serves a request");
    lc_check(nob(o) == nob(u) && occ(o) == occ(u), "copying the cache changed the original's counts");
    if (h1) hit_seen = true;
  }
  lc_rand_stream(2);
  uint64_t s1 = found_set(d);
  lc_rand_stream(3);
  uint64_t s2 = found_set(f);
  lc_check(s1 == s2, "the copy caches other objects than a fresh cache");
  lc_rand_stream(0);
  uint64_t s3 = found_set(o);
  lc_rand_stream(1);
  uint64_t s4 = found_set(u);
  lc_check(s3 == s4, "copying the cache changed what the original caches");
}

// the configured admission policy
static cache_t *outfit(cache_t *c) {
  const char *a = lc_sparam("admission", ""), *ap = lc_sparam("admparams", "");
  if (a[0]) c->admissioner = create_admissioner(a, ap[0] ? ap : NULL);
  return c;
}
static cache_t *mkpre(const char *algo, int64_t C, const char *cp, int md, int hp) {
  cache_t *c = outfit(mkcache_hp(algo, C, cp, md, hp));
  prefill(c);
  return c;
}

void lc_main(void) {
  const char *algo = lc_sparam("algo", "lru");
  const char *cp = lc_sparam("cparams", "");
  int L = (int)lc_param("ops", 5);
  unit = lc_param("unit", 1);
  int64_t C = lc_param("size", 3) * unit;
  smin = lc_param("smin", 1);
  smax = lc_param("smax", 1);
  csize = lc_param("csize", 0);
  idbits = lc_param("idbits", 64);
  nav = lc_param("nav", 0);
  truth = lc_param("truth", 0);
  canon = lc_param("canon", 0);
  id_base = 7;
  pat = lc_sparam("pat", "");
  if (!pat[0]) pat = NULL;
  if (pat) L = (int)strlen(pat) - (int)lc_param("ops2", 0);
  if (truth) mktrace(L + (int)lc_param("ops2", 0));
  int with_remove = (int)lc_param("remove", 0);
  int which = (int)lc_param("prop", 0), md = (int)lc_param("md", 0), hp = (int)lc_param("hashpower", 2);
  if (lc_param("pre", 0)) mkprefix((int)lc_param("pre", 0), (uint64_t)lc_param("preseed", 1));
  cache_t *c = mkpre(algo, C, cp, md, hp);
  switch (which) {
    case 5: lc_rand_stream(1); peeks(c, mkpre(algo, C, cp, md, hp), L, with_remove); break;
    case 6: announce(c, L, with_remove); break;
    case 7: inadmissible(c, C, L, (int)lc_param("adm", 0)); break;
    case 8: anycalls(c, C, L, (int)lc_param("evict", 1), (int)lc_param("clone", 1), (int)lc_param("toev", 0)); break;
    case 9: lc_rand_stream(1); clones(c, mkpre(algo, C, cp, md, hp), C, L, (int)lc_param("ops2", 4), algo, cp, md, hp, lc_param("size2", C / unit) * unit); break;
    default: histories(which, c, C, L, with_remove, smin == smax || (int)lc_param("sameset", 0));
  }
  if (evicted) lc_cover("eviction");
  if (hit_seen) lc_cover("hit");
}
