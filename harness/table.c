// The object hash table: arbitrary distinct 64-bit ids with arbitrary hash values, arbitrary insertions and deletions
// through every entry point, across growth; compared with a set.
#include "lc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "include/libCacheSim/cacheObj.h"
#include "include/libCacheSim/request.h"
#include "dataStructure/hashtable/hashtable.h"

bool chained_hashtable_delete_obj_id_v2(hashtable_t *hashtable, const obj_id_t obj_id);  // not in its header
#define MAXK 12
static obj_id_t ids[MAXK];
static bool live[MAXK];
static cache_obj_t *obj[MAXK];
static int nk, cnt, seen[MAXK], strangers;
static int index_of(obj_id_t id) {
  for (int i = 0; i < nk; i++) if (ids[i] == id) return i;
  return -1;
}
static void visit(cache_obj_t *o, void *u) {
  lc_check(u == (void *)seen, "iteration passes the wrong user data");
  int k = index_of(o->obj_id);
  if (k < 0) strangers++; else { seen[k]++; lc_check(o == obj[k], "iteration visits another object than the one inserted"); }
}
static void verify(hashtable_t *h, int rnd) {
  lc_check(h->n_obj == (uint64_t)cnt, "the object count is wrong");
  request_t *r = new_request();
  for (int k = 0; k < nk; k++) {
    cache_obj_t *a = hashtable_find_obj_id(h, ids[k]);
    lc_check((a != NULL) == live[k], live[k] ? "an inserted object is not found" : "an object that was never inserted or was deleted is found");
    r->obj_id = ids[k];
    cache_obj_t *b = hashtable_find(h, r);
    lc_check(a == b, "lookup by request and by id disagree");
    if (a) {
      lc_check(a == obj[k] && a->obj_id == ids[k], "the lookup found another object");
      lc_check(hashtable_find_obj(h, a) == a, "lookup by object and by id disagree");
      lc_check(a->obj_size == 100 + k, "the stored size changed");
    }
  }
  free_request(r);
  memset(seen, 0, sizeof seen);
  strangers = 0;
  hashtable_foreach(h, visit, seen);
  lc_check(strangers == 0, "iteration visits an object that was not inserted");
  for (int k = 0; k < nk; k++) lc_check(seen[k] == (live[k] ? 1 : 0), "iteration does not visit each object exactly once");
  if (rnd && cnt) {
    cache_obj_t *o = hashtable_rand_obj(h);
    lc_check(o != NULL, "the random pick returned nothing");
    int k = index_of(o->obj_id);
    lc_check(k >= 0 && live[k] && o == obj[k], "the random pick is not a live object");
    lc_cover("random pick");
  }
}
// one long chain: every id hashes alike; any one object is deleted through any entry point
static void chain(int N) {
  hashtable_t *h = create_hashtable((uint16_t)lc_param("hp", 7));
  static cache_obj_t *o[128];
  request_t *r = new_request();
  for (int i = 0; i < N; i++) {
    r->obj_id = 1000 + 7 * (obj_id_t)i;
    r->obj_size = 1;
    o[i] = hashtable_insert(h, r);
  }
  for (int t = 0; t < 2; t++) {
    int v = (int)lc_choose("victim", (uint64_t)N);
    r->obj_id = 1000 + 7 * (obj_id_t)v;
    cache_obj_t *p = hashtable_find(h, r);
    lc_check(p == (o[v] ? o[v] : NULL), "lookup in a long chain is wrong");
    if (!p) continue;
    int how = (int)lc_choose("how", 3);
    if (how == 0) hashtable_delete(h, p);
    else if (how == 1) lc_check(hashtable_try_delete(h, p), "deleting a present object reports failure");
    else lc_check(hashtable_delete_obj_id(h, r->obj_id), "deleting a present id reports failure");
    o[v] = NULL;
    lc_check(!hashtable_find(h, r), "a deleted object is found");
    lc_check(h->n_obj == (uint64_t)(N - 1 - t), "the object count is wrong");
    lc_cover("deleted");
  }
  for (int i = 0; i < N; i++) {
    r->obj_id = 1000 + 7 * (obj_id_t)i;
    lc_check(hashtable_find(h, r) == o[i], "deleting from a long chain changed another object");
  }
  free_request(r);
  free_hashtable(h);
}
void lc_main(void) {
  if (lc_param("chain", 0)) { chain((int)lc_param("chain", 0)); return; }
  int L = (int)lc_param("ops", 6), K = (int)lc_param("keys", 4), ext = (int)lc_param("ext", 0);
  hashtable_t *h = create_hashtable((uint16_t)lc_param("hp", 0));
  h->external_obj = ext != 0;
  uint16_t hp0 = h->hashpower;
  for (int t = 0; t < L; t++) {
    // keys are introduced in order
    int k = (int)lc_choose("key", (uint64_t)(nk < K ? nk + 1 : nk));
    if (k == nk) {
      ids[nk] = lc_sym("id", 64);
      for (int i = 0; i < nk; i++) lc_assume(ids[i] != ids[nk]);
      nk++;
    }
    if (!live[k]) {
      int op = t + 1 < L ? (int)lc_choose("absent", 3) : 0;  // insert, delete by id, try to delete
      if (op == 0) {
        request_t *r = new_request();
        r->obj_id = ids[k];
        r->obj_size = 100 + k;
        obj[k] = ext ? hashtable_insert_obj(h, create_cache_obj_from_request(r)) : hashtable_insert(h, r);
        free_request(r);
        live[k] = true;
        cnt++;
      } else if (op == 1) {
        lc_check(!hashtable_delete_obj_id(h, ids[k]), "deleting an absent id reports success");
      } else {
        request_t *r = new_request();
        r->obj_id = ids[k];
        cache_obj_t *o = create_cache_obj_from_request(r);
        lc_check(!hashtable_try_delete(h, o), "deleting an absent object reports success");
        free_cache_obj(o);
        free_request(r);
      }
    } else {
      int op = (int)lc_choose("how", 3);
      cache_obj_t *o = obj[k];
      if (op == 0) hashtable_delete(h, o);
      else if (op == 1) lc_check(hashtable_try_delete(h, o), "deleting a present object reports failure");
      else lc_check(hashtable_delete_obj_id(h, ids[k]), "deleting a present id reports failure");
      if (ext) free_cache_obj(o);
      live[k] = false;
      cnt--;
      lc_cover("deleted");
    }
    verify(h, t + 1 == L && lc_param("rnd", 0));
    lc_observe("n", h->n_obj);
  }
  if (h->hashpower > hp0) lc_cover("grown");
  if (h->hashpower > hp0 + 1) lc_cover("grown twice");
  free_hashtable(h);
  if (ext) for (int k = 0; k < nk; k++) if (live[k]) free_cache_obj(obj[k]);
}
