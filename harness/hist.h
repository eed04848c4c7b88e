// Symbolic request histories shared by the cache harnesses.
#pragma once
#include "cachemk.h"

extern void lc_rand_stream(int s);
extern uint64_t lc_next_rand(void);
#define MAXOPS 64
static obj_id_t ids[MAXOPS];
static int64_t szs[MAXOPS];  // what the object takes in the cache
static int64_t mdsz;          // of which overhead
static int n_ids, now;
static int64_t smax, smin, csize, idbits, nav, canon;
static obj_id_t id_base;

static int64_t unit = 1;  // sizes are multiples of this many bytes
static int64_t one_size(void) {
  if (smin == smax) return smin * unit;
  return unit * (int64_t)(csize ? lc_concretize(lc_range("size", smin, smax)) : lc_range("size", smin, smax));
}
// index of the object among those seen so far (decides equality with each of them)
static int intern_id(obj_id_t id) {
  for (int i = 0; i < n_ids; i++)
    if (ids[i] == id) return i;
  ids[n_ids] = id;
  szs[n_ids] = one_size();
  return n_ids++;
}
// the next object: an arbitrary id, or (canon: policies that hash ids by themselves) one of those seen or a new one
static int any_obj(void) {
  if (canon) return intern_id(id_base + 0x9e3779b9ull * lc_choose("obj", (uint64_t)n_ids + 1));
  return intern_id(lc_sym("id", (int)idbits));
}
// a truthful trace for policies that are told the next access: all objects are chosen up front
static int seq[MAXOPS], seq_n, seq_pos;
static int64_t truth;
static void mktrace(int n) {
  for (int t = 0; t < n; t++) seq[t] = any_obj();
  seq_n = n;
}
static int64_t seq_next(int t) {
  for (int k = t + 1; k < seq_n; k++)
    if (seq[k] == seq[t]) return k;
  return INT64_MAX;
}
static int64_t the_next;
// the object of the next get request; the_next becomes its next access time
static int64_t nextacc(void);
static int next_obj(void) {
  if (!truth) { int i = any_obj(); the_next = nextacc(); return i; }
  int i = seq[seq_pos];
  the_next = seq_next(seq_pos++);
  return i;
}

static request_t *req_of(int i) {
  request_t *r = mkreq(ids[i], szs[i] - mdsz);
  r->clock_time = now;
  r->next_access_vtime = -2;
  return r;
}
static bool found(cache_t *c, int i) {
  request_t *r = req_of(i);
  bool f = c->find(c, r, false) != NULL;
  free_request(r);
  return f;
}
static uint64_t found_set(cache_t *c) {
  uint64_t m = 0;
  for (int i = 0; i < n_ids; i++)
    if (found(c, i)) m |= 1ull << i;
  return m;
}
static int popc(uint64_t m) { int n = 0; for (; m; m &= m - 1) n++; return n; }
static int64_t nextacc(void) {
  if (!nav) return -2;
  uint64_t k = lc_choose("next", (uint64_t)nav + 1);
  return k == (uint64_t)nav ? INT64_MAX : now + 1 + (int64_t)k;
}
static bool get(cache_t *c, int i, int64_t na) {
  request_t *r = req_of(i);
  r->next_access_vtime = na;
  bool hit = c->get(c, r);
  free_request(r);
  return hit;
}
static int64_t occ(cache_t *c) { return c->get_occupied_byte(c); }
static int64_t nob(cache_t *c) { return c->get_n_obj(c); }
// a concrete history in front of the arbitrary one: brings larger caches (default parameters) to a populated state
static int pre_n, pre_m;
static int pre_seq[256];
static void mkprefix(int n, uint64_t x) {
  for (int t = 0; t < n; t++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t r = x >> 33;
    int k;
    if (n_ids > 0 && r % 8 < 3) k = (int)(r / 8 % (uint64_t)n_ids);
    else {
      k = n_ids++;
      ids[k] = 1000003ull * (uint64_t)(k + 1) + 17;
      szs[k] = smin + (int64_t)(r / 64 % (uint64_t)(smax - smin + 1));
    }
    pre_seq[t] = k;
  }
  pre_n = n;
  pre_m = n_ids;
}
static void prefill(cache_t *c) {
  for (int t = 0; t < pre_n; t++) {
    now = t;
    get(c, pre_seq[t], -2);
  }
}

// Patterned histories: one letter per step says what kind of step it is, which object it concerns stays open.
//   n get a new object      c get a cached object     C get the same object as the previous step
//   g get a known object that is not cached (else a new one)    o get a known object     a get a known or new object
//   h get a cached object or do nothing     d remove a cached object     r remove a known object
//   e evict                 p look a known object up without update       x any of a, r
static const char *pat;
enum { GET, REMOVE, LOOKUP, EVICT, NOTHING };
typedef struct { int op, i; } step_t;
static int last_i;
static int new_obj(void) {
  ids[n_ids] = 0x9e3779b97f4a7c15ull * (uint64_t)(n_ids + 1) + id_base;
  szs[n_ids] = one_size();
  return n_ids++;
}
static int among(const char *what, uint64_t set) {
  uint64_t k = lc_choose(what, (uint64_t)popc(set));
  for (int i = 0;; i++)
    if ((set >> i & 1) && k-- == 0) return i;
}
static step_t pat_step(cache_t *c, char k) {
  step_t s = {GET, last_i};
  uint64_t all = n_ids >= 64 ? ~0ull : (1ull << n_ids) - 1, in = strchr("cghd", k) ? found_set(c) : 0;
  if (k == 'x') k = n_ids && lc_choose("op", 2) ? 'r' : 'a';
  switch (k) {
    case 'n': s.i = new_obj(); break;
    case 'c': if (in) s.i = among("cached", in); else s.i = new_obj(); break;
    case 'C': break;
    case 'g': if (all & ~in) s.i = among("uncached", all & ~in); else s.i = new_obj(); break;
    case 'o': s.i = n_ids ? (int)lc_choose("known", (uint64_t)n_ids) : new_obj(); break;
    case 'a': s.i = (int)lc_choose("obj", (uint64_t)n_ids + 1); if (s.i == n_ids) new_obj(); break;
    case 'h':
      if (!in || lc_choose("hit", 2) == 0) s.op = NOTHING;
      else s.i = among("cached", in);
      break;
    case 'd': if (in) { s.op = REMOVE; s.i = among("victim", in); } else s.op = NOTHING; break;
    case 'r': if (n_ids) { s.op = REMOVE; s.i = (int)lc_choose("victim", (uint64_t)n_ids); } else s.op = NOTHING; break;
    case 'p': if (n_ids) { s.op = LOOKUP; s.i = (int)lc_choose("known", (uint64_t)n_ids); } else s.op = NOTHING; break;
    case 'e': s.op = c->get_n_obj(c) > 0 ? EVICT : NOTHING; break;
    default: abort();
  }
  if (s.op == GET) { last_i = s.i; the_next = nextacc(); }
  return s;
}
