// Real eviction policies against short transcriptions of their published rules, on arbitrary histories of requests
// and removals (arbitrary ids; unit or small sizes). After every operation the answer and the cached set must agree.
#include "hist.h"

#define N MAXOPS
typedef struct { int n; int o[N]; int64_t bytes; } Q;  // o[0] is the oldest
static int q_find(const Q *q, int i) {
  for (int k = 0; k < q->n; k++)
    if (q->o[k] == i) return k;
  return -1;
}
static bool q_has(const Q *q, int i) { return q_find(q, i) >= 0; }
static void q_push(Q *q, int i) { q->o[q->n++] = i; q->bytes += szs[i]; }
static int q_del_at(Q *q, int k) {
  int i = q->o[k];
  for (; k + 1 < q->n; k++) q->o[k] = q->o[k + 1];
  q->n--;
  q->bytes -= szs[i];
  return i;
}
static bool q_del(Q *q, int i) { int k = q_find(q, i); if (k < 0) return false; q_del_at(q, k); return true; }
static int q_pop(Q *q) { return q_del_at(q, 0); }
static uint64_t q_set(const Q *q) { uint64_t m = 0; for (int k = 0; k < q->n; k++) m |= 1ull << q->o[k]; return m; }
// a bounded FIFO of remembered objects (what FIFO does on a request)
static void q_remember(Q *q, int64_t cap, int i) {
  if (q_has(q, i) || szs[i] > cap) return;
  while (q->bytes + szs[i] > cap) q_pop(q);
  q_push(q, i);
}

static int64_t C;
static const char *kind;
static Q q, q1, q2, g1, g2, seg[4];
static int64_t freq[N], seqno[N], clk;
static double pri[N], aging;
static int nseg;
static int64_t segcap[4];
static int64_t cap1, capg, capm;  // first queue, ghost, main
static int thr, maxfreq;
static int hand = -1;             // SIEVE: object the hand points at, -1: start from the oldest
static double arc_p;
static bool is(const char *s) { return strcmp(kind, s) == 0; }

// ---- single queue policies
static bool r_lru(int i, int64_t na) {
  if (q_del(&q, i)) { q_push(&q, i); return true; }
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) q_del_at(&q, is("mru") ? q.n - 1 : 0);
  q_push(&q, i);
  return false;
}
static bool r_fifo(int i, int64_t na) {
  if (q_has(&q, i)) return true;
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) q_pop(&q);
  q_push(&q, i);
  return false;
}
static void clock_evict(Q *w) {
  for (;;) {
    int v = q_pop(w);
    if (freq[v] == 0) return;
    freq[v]--;
    q_push(w, v);
  }
}
static bool r_clock(int i, int64_t na) {
  if (q_has(&q, i)) { if (freq[i] < maxfreq) freq[i]++; return true; }
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) clock_evict(&q);
  q_push(&q, i);
  freq[i] = 0;
  return false;
}
static bool r_sieve(int i, int64_t na) {
  if (q_has(&q, i)) { freq[i] = 1; return true; }
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) {
    int k = hand < 0 ? 0 : q_find(&q, hand);
    while (freq[q.o[k]]) { freq[q.o[k]] = 0; k = k + 1 < q.n ? k + 1 : 0; }
    hand = k + 1 < q.n ? q.o[k + 1] : -1;
    q_del_at(&q, k);
  }
  q_push(&q, i);
  freq[i] = 0;
  return false;
}
// ---- priority policies
static bool r_lfu(int i, int64_t na) {
  clk++;
  if (q_has(&q, i)) { freq[i]++; seqno[i] = clk; return true; }
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) {
    int b = 0;
    for (int k = 1; k < q.n; k++)
      if (freq[q.o[k]] < freq[q.o[b]] || (freq[q.o[k]] == freq[q.o[b]] && seqno[q.o[k]] < seqno[q.o[b]])) b = k;
    q_del_at(&q, b);
  }
  q_push(&q, i);
  freq[i] = 1;
  seqno[i] = clk;
  return false;
}
static bool r_gdsf(int i, int64_t na) {
  clk++;
  if (q_has(&q, i)) { freq[i]++; seqno[i] = clk; pri[i] = aging + (double)freq[i] * 1.0e6 / (double)(szs[i] - mdsz); return true; }
  if (szs[i] > C) return false;
  while (q.bytes + szs[i] > C) {
    int b = 0;
    for (int k = 1; k < q.n; k++)
      if (pri[q.o[k]] < pri[q.o[b]] || (pri[q.o[k]] == pri[q.o[b]] && seqno[q.o[k]] < seqno[q.o[b]])) b = k;
    aging = pri[q.o[b]];
    q_del_at(&q, b);
  }
  q_push(&q, i);
  freq[i] = 1;
  seqno[i] = clk;
  pri[i] = aging + 1.0e6 / (double)(szs[i] - mdsz);
  return false;
}
// ---- ARC (FAST'03 figure 4), unit sizes
static void arc_replace(bool inB2) {
  if (q1.n > 0 && (q1.n > arc_p || (inB2 && (double)q1.n == arc_p) || q2.n == 0)) q_push(&g1, q_pop(&q1));
  else q_push(&g2, q_pop(&q2));
}
static bool r_arc(int i, int64_t na) {
  if (q_del(&q1, i) || q_del(&q2, i)) { q_push(&q2, i); return true; }
  bool full = q1.n + q2.n >= C;
  if (q_has(&g1, i)) {
    double d = (double)g2.n / g1.n;
    arc_p = arc_p + (d > 1 ? d : 1);
    if (arc_p > (double)C) arc_p = (double)C;
    q_del(&g1, i);
    if (full) arc_replace(false);
    q_push(&q2, i);
  } else if (q_has(&g2, i)) {
    double d = (double)g1.n / g2.n;
    arc_p = arc_p - (d > 1 ? d : 1);
    if (arc_p < 0) arc_p = 0;
    q_del(&g2, i);
    if (full) arc_replace(true);
    q_push(&q2, i);
  } else {
    if (full) {
      if (q1.n + g1.n == C) {
        if (q1.n < C) { q_pop(&g1); arc_replace(false); }
        else q_pop(&q1);
      } else {
        if (q1.n + q2.n + g1.n + g2.n == 2 * C) q_pop(&g2);
        arc_replace(false);
      }
    }
    q_push(&q1, i);
  }
  return false;
}
// ---- 2Q
static bool r_twoq(int i, int64_t na) {
  if (q_has(&q1, i)) return true;
  if (q_has(&q2, i)) { q_del(&q2, i); q_push(&q2, i); return true; }
  bool ghost = q_del(&g1, i);
  if (szs[i] > cap1) return false;
  while (q1.bytes + q2.bytes + szs[i] > C) {
    if (q1.bytes > cap1 || q2.n == 0) { q_remember(&g1, capg, q1.o[0]); q_pop(&q1); }
    else q_pop(&q2);
  }
  if (!ghost) { q_push(&q1, i); return false; }
  if (szs[i] > capm) return false;
  while (q2.bytes + szs[i] > capm) q_pop(&q2);
  q_push(&q2, i);
  return false;
}
// ---- segmented LRU
static void slru_cool(int s) {
  while (seg[s].bytes > segcap[s]) {
    int v = q_pop(&seg[s]);
    if (s > 0) { q_push(&seg[s - 1], v); slru_cool(s - 1); }
  }
}
static bool r_slru(int i, int64_t na) {
  for (int s = 0; s < nseg; s++)
    if (q_del(&seg[s], i)) {
      int d = s + 1 < nseg ? s + 1 : s;
      q_push(&seg[d], i);
      if (d != s) slru_cool(d);
      return true;
    }
  if (szs[i] > C || szs[i] > segcap[0]) return false;
  for (;;) {
    int64_t b = 0;
    for (int s = 0; s < nseg; s++) b += seg[s].bytes;
    if (b + szs[i] <= C) break;
    for (int s = 0; s < nseg; s++)
      if (seg[s].n) { q_pop(&seg[s]); break; }
  }
  int d = 0;
  for (int s = 0; s < nseg; s++)
    if (seg[s].bytes + szs[i] <= segcap[s]) { d = s; break; }
  q_push(&seg[d], i);
  return false;
}
// ---- S3-FIFO
static bool r_s3fifo(int i, int64_t na) {
  if (q_has(&q1, i) || q_has(&q2, i)) { freq[i]++; return true; }
  bool ghost = q_del(&g1, i);
  if (szs[i] > cap1 || szs[i] > C) return false;
  while (q1.bytes + q2.bytes + szs[i] > C) {
    if (q2.bytes > capm || q1.n == 0) {
      while (q2.n) {
        int v = q_pop(&q2);
        if (freq[v] == 0) break;
        freq[v] = (freq[v] < 3 ? freq[v] : 3) - 1;
        q_push(&q2, v);
      }
    } else {
      while (q1.n) {
        int v = q_pop(&q1);
        if (freq[v] >= thr) { q_push(&q2, v); freq[v] = 0; continue; }
        if (capg > 0) q_remember(&g1, capg, v);
        break;
      }
    }
  }
  if (ghost) q_push(&q2, i);
  else if (szs[i] < cap1) q_push(&q1, i);
  freq[i] = 0;
  return false;
}
// ---- QDLP: probationary FIFO in front of a main cache (Clock or LRU)
static bool main_lru;
static int64_t hits1[N];
static void main_add(int i) {
  if (szs[i] > capm) return;
  while (q2.bytes + szs[i] > capm) { if (main_lru) q_pop(&q2); else clock_evict(&q2); }
  q_push(&q2, i);
  freq[i] = 0;
}
static bool r_qdlp(int i, int64_t na) {
  if (q_has(&q1, i)) { hits1[i]++; return true; }
  bool ghost = q_del(&g1, i);
  if (q_has(&q2, i)) {
    if (main_lru) { q_del(&q2, i); q_push(&q2, i); }
    else if (freq[i] < maxfreq) freq[i]++;
    return true;
  }
  if (szs[i] > cap1 || szs[i] > C) return false;
  while (q1.bytes + q2.bytes + szs[i] > C) {
    if (q1.n == 0) { if (main_lru) q_pop(&q2); else clock_evict(&q2); continue; }
    int v = q1.o[0];
    if (hits1[v] >= thr) main_add(v);
    else if (capg > 0) q_remember(&g1, capg, v);
    q_pop(&q1);
  }
  if (ghost) main_add(i);
  else if (szs[i] < cap1) { q_push(&q1, i); hits1[i] = 0; }
  return false;
}

static uint64_t r_set(void) {
  uint64_t m = q_set(&q) | q_set(&q1) | q_set(&q2);
  for (int s = 0; s < nseg; s++) m |= q_set(&seg[s]);
  return m;
}
static bool r_remove(int i) {
  if (is("sieve") && hand == i) { int k = q_find(&q, i); hand = k >= 0 && k + 1 < q.n ? q.o[k + 1] : -1; }
  bool ok = q_del(&q, i) || q_del(&q1, i) || q_del(&q2, i);
  for (int s = 0; s < nseg; s++) ok = q_del(&seg[s], i) || ok;
  if (!is("arc")) q_del(&g1, i);
  return ok;
}
static bool r_get(int i, int64_t na) {
  if (is("lru") || is("mru")) return r_lru(i, na);
  if (is("fifo")) return r_fifo(i, na);
  if (is("clock")) return r_clock(i, na);
  if (is("sieve")) return r_sieve(i, na);
  if (is("lfu")) return r_lfu(i, na);
  if (is("gdsf")) return r_gdsf(i, na);
  if (is("arc")) return r_arc(i, na);
  if (is("twoq")) return r_twoq(i, na);
  if (is("slru")) return r_slru(i, na);
  if (is("s3fifo")) return r_s3fifo(i, na);
  if (is("qdlp")) return r_qdlp(i, na);
  abort();
}

static bool evicted, hit_seen, ghost_seen;

static void exact(cache_t *c, int L, int with_remove) {
  for (int t = -pre_n; t < L; t++) {
    now = pre_n + t;
    bool pre = t < 0;
    step_t s = {GET, -1};
    if (!pre && pat) s = pat_step(c, pat[t]);
    else if (!pre && with_remove && t > 0 && lc_choose("op", 2)) s.op = REMOVE;
    if (s.op == NOTHING) continue;
    if (s.op == REMOVE) {
      int i = pat ? s.i : (int)lc_choose("victim", (uint64_t)n_ids);
      bool ok = c->remove(c, ids[i]);
      lc_check(ok == r_remove(i), "remove answers differently from the policy's rules");
    } else {
      int i;
      if (pre) i = pre_seq[now];
      else i = pat ? s.i : next_obj();
      if (q_has(&g1, i) || q_has(&g2, i)) ghost_seen = true;
      uint64_t before = r_set();
      bool want = r_get(i, -2);
      bool hit = get(c, i, -2);
      if (!pre) lc_observe("hit", hit);
      lc_check(hit == want, "the policy's hit or miss differs from its rules");
      if (hit) hit_seen = true;
      if (before & ~r_set()) evicted = true;
      if (pre && t < -1) continue;
    }
    uint64_t set = found_set(c);
    lc_observe("set", set);
    lc_check(set == r_set(), "the policy caches other objects than its rules say");
  }
}

// Size and Belady leave ties open: a relation between what is evicted and what stays
static int64_t nxt[N], late;  // late: the position in the trace where the history starts
static bool relation(cache_t *c, int i, int64_t na, int size_rule) {
  uint64_t before = found_set(c);
  bool hit = get(c, i, na >= 0 && na != INT64_MAX ? na + late : na);
  uint64_t after = found_set(c);
  lc_observe("hit", hit);
  lc_observe("set", after);
  lc_check(hit == ((before >> i) & 1), "hit although not cached, or miss although cached");
  nxt[i] = na;
  uint64_t gone = before & ~after;
  if (gone) evicted = true;
  if (hit) hit_seen = true;
  int64_t used = 0, least = INT64_MAX;
  for (int k = 0; k < n_ids; k++) {
    if (after >> k & 1) used += szs[k];
    if (gone >> k & 1) {
      if (szs[k] < least) least = szs[k];
      for (int r = 0; r < n_ids; r++) {
        if (!(after >> r & 1)) continue;
        if (size_rule) lc_check(r == i || szs[k] >= szs[r], "an object was evicted although a larger one stayed");
        else lc_check(r == i || nxt[k] >= nxt[r], "an object was evicted although one needed later stayed");
      }
    }
  }
  if (size_rule) {
    lc_check(!gone || used + least > C, "more objects were evicted than needed");
    lc_check((after >> i & 1) == (hit || szs[i] <= C), "the requested object was not cached");
    lc_check(!hit || gone == 0, "a hit evicted an object");
  } else {
    int64_t near = INT64_MAX, last = 0;  // the evicted object needed soonest went last
    for (int k = 0; k < n_ids; k++)
      if (gone >> k & 1 && k != i && nxt[k] < near) near = nxt[k];
    for (int k = 0; k < n_ids; k++)
      if (gone >> k & 1 && k != i && nxt[k] == near && szs[k] > last) last = szs[k];
    lc_check((gone & ~(1ull << i)) == 0 || used + last > C || na == INT64_MAX, "more objects were evicted than needed");
    lc_check(na == INT64_MAX || szs[i] > C || (after >> i & 1), "a requested object with a future was not cached");
    for (int k = 0; k < n_ids; k++)
      lc_check(k == i || !(gone >> k & 1) || !hit, "a hit evicted another object");
  }
  return hit;
}
// fewest misses of any policy that caches what it misses on, by exhaustive choice of victims
static int opt(int t, uint64_t S) {
  if (t >= seq_n) return 0;
  uint64_t b = 1ull << seq[t];
  if (S & b) return opt(t + 1, S);
  if (popc(S) < C) return 1 + opt(t + 1, S | b);
  int best = 1 << 20;
  for (int k = 0; k < n_ids; k++)
    if (S >> k & 1) {
      int m = 1 + opt(t + 1, (S & ~(1ull << k)) | b);
      if (m < best) best = m;
    }
  return best;
}

void lc_main(void) {
  const char *algo = lc_sparam("algo", "lru");
  const char *cp = lc_sparam("cparams", "");
  kind = lc_sparam("model", algo);
  int L = (int)lc_param("ops", 5);
  unit = lc_param("unit", 1);
  C = lc_param("size", 3) * unit;
  smin = lc_param("smin", 1);
  smax = lc_param("smax", 1);
  csize = lc_param("csize", 0);
  idbits = lc_param("idbits", 64);
  truth = lc_param("truth", 0);
  canon = lc_param("canon", 0);
  id_base = 7;
  pat = lc_sparam("pat", "");
  if (!pat[0]) pat = NULL;
  if (pat) L = (int)strlen(pat);
  cap1 = lc_param("cap1", 0) * unit;
  capg = lc_param("capg", 0) * unit;
  capm = C - cap1;
  thr = (int)lc_param("thr", 1);
  maxfreq = (int)lc_param("maxfreq", 1);
  main_lru = lc_param("mainlru", 0) != 0;
  nseg = (int)lc_param("nseg", 0);
  segcap[0] = lc_param("seg0", 0) * unit; segcap[1] = lc_param("seg1", 0) * unit; segcap[2] = lc_param("seg2", 0) * unit; segcap[3] = lc_param("seg3", 0) * unit;
  int64_t cap = C;
  int md = (int)lc_param("md", 0);
  if (md) {  // every object takes its size and the overhead of the policy
    cache_t *p = mkcache_hp(algo, 1000, cp, 1, 6);
    mdsz = p->obj_md_size;
    p->cache_free(p);
    smin += mdsz, smax += mdsz, cap *= 1 + mdsz, cap1 *= 1 + mdsz, capg *= 1 + mdsz, capm *= 1 + mdsz;
    for (int s = 0; s < 4; s++) segcap[s] *= 1 + mdsz;
    if (!is("arc")) C = cap;  // its transcription counts objects
  }
  cache_t *c = mkcache_hp(algo, cap, cp, md, (int)lc_param("hashpower", 6));
  if (lc_param("pre", 0)) mkprefix((int)lc_param("pre", 0), (uint64_t)lc_param("preseed", 1));
  if (is("size") || is("belady")) {
    late = lc_param("late", 0);
    if (truth) mktrace(L);
    int misses = 0;
    for (int t = -pre_n; t < L; t++) {
      now = pre_n + t;
      if (t < 0) { relation(c, pre_seq[now], -2, 1); continue; }
      step_t s = {GET, -1};
      if (pat) s = pat_step(c, pat[t]);
      if (s.op == NOTHING) continue;
      if (s.op == REMOVE) { c->remove(c, ids[s.i]); continue; }
      int i = pat ? s.i : next_obj();
      misses += !relation(c, i, the_next, is("size"));
    }
    if (truth && smin == smax) lc_check(misses <= opt(0, 0), "Belady misses more often than another replacement policy");
  } else
    exact(c, L, (int)lc_param("remove", 0));
  if (evicted) lc_cover("eviction");
  if (hit_seen) lc_cover("hit");
  if (ghost_seen) lc_cover("ghost hit");
}
