// The priority queue and the ordered tree: arbitrary priorities (any double but NaN) and keys, arbitrary operations.
#include "lc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "include/config.h"
#include "include/libCacheSim/request.h"
#include "dataStructure/pqueue.h"
#include "dataStructure/splay.h"

static int popcount(uint64_t m) { int n = 0; for (; m; m &= m - 1) n++; return n; }
static uint64_t used;  // perm: the first elements get distinct priorities in an arbitrary order, later ones any value between them
static double anypri(void) {
  int perm = (int)lc_param("perm", 0);
  if (perm && popcount(used) < perm) {
    uint64_t k = lc_choose("rank", (uint64_t)(perm - popcount(used)));
    int i = 0;
    for (;; i++)
      if (!(used >> i & 1) && k-- == 0) break;
    used |= 1ull << i;
    return 2 * i;
  }
  if (perm) return (double)lc_choose("between", 2 * (uint64_t)perm + 1) - 1;
  if (lc_param("ints", 0)) return (double)lc_range("pri", 0, (1ull << lc_param("pribits", 40)) - 1);
  double d;
  lc_bytes(&d, sizeof d, "pri");
  lc_assume(d == d);
  return d;
}
#define MAXN 12
static void pq(int L, int maxn) {
  int init = (int)lc_param("init", 1);
  pqueue_t *q = pqueue_init((size_t)lc_param("cap", 2));
  pq_node_t *nd[MAXN];
  double pri[MAXN];
  int live[MAXN], n = 0, cnt = 0;
  for (int t = 0; t < L; t++) {
    int op = t < init ? 0 : lc_param("onlyop", -1) >= 0 ? (int)lc_param("onlyop", 0) : (int)lc_choose("op", 4);
    if (op == 0) {
      if (n == maxn) { lc_assume(false); return; }
      nd[n] = calloc(1, sizeof(pq_node_t));
      nd[n]->obj_id = (obj_id_t)n;
      nd[n]->pri.pri = pri[n] = anypri();
      lc_check(pqueue_insert(q, nd[n]) == 0, "insert failed");
      live[n++] = 1;
      cnt++;
    } else if (op == 1) {
      pq_node_t *p = pqueue_peek(q), *r = pqueue_pop(q);
      lc_check(p == r, "peek and pop name different elements");
      lc_check((r == NULL) == (cnt == 0), "pop returns nothing although elements are queued, or something although none is");
      if (r) {
        int k = (int)r->obj_id;
        lc_check(live[k], "pop returned an element that is not queued");
        for (int i = 0; i < n; i++)
          if (live[i]) lc_check(!cmp_pri(r->pri, nd[i]->pri), "pop returned an element that is not extreme");
        live[k] = 0;
        cnt--;
        lc_observe("pop", (uint64_t)k);
        lc_cover("popped");
      }
    } else {
      if (!cnt) lc_assume(false);
      int k = (int)lc_choose("elem", (uint64_t)n);
      lc_assume(live[k]);
      if (op == 2) {
        pqueue_pri_t np = {.pri = anypri()};
        pqueue_change_priority(q, np, nd[k]);
        pri[k] = np.pri;
        lc_cover("changed");
      } else {
        pqueue_remove(q, nd[k]);
        live[k] = 0;
        cnt--;
        lc_cover("removed");
      }
    }
    lc_check(pqueue_size(q) == (size_t)cnt, "the queue's size is wrong");
    for (int i = 0; i < n; i++)
      if (live[i]) lc_check(nd[i]->pri.pri == pri[i], "an element's priority changed by itself");
  }
  // (either way round is a valid order as long as it is the same for all elements: what counts is cmp_pri)
  // everything still queued comes out, each once, in order
  pq_node_t *last = NULL;
  int64_t drain = lc_param("drain", MAXN);
  while (cnt && drain--) {
    pq_node_t *r = pqueue_pop(q);
    lc_check(r != NULL, "an element was lost");
    int k = (int)r->obj_id;
    lc_check(live[k], "an element came out twice");
    live[k] = 0;
    cnt--;
    lc_check(!last || !cmp_pri(last->pri, r->pri), "elements come out in the wrong order");
    last = r;
    lc_observe("out", (uint64_t)k);
  }
  if (!cnt) lc_check(pqueue_pop(q) == NULL && pqueue_peek(q) == NULL, "an empty queue still returns an element");
  pqueue_free(q);
}

static int inorder(sTree *t, long long *keys, int n) {
  if (!t) return n;
  lc_check(n < 64, "the tree is not a tree");
  n = inorder(t->left, keys, n);
  keys[n++] = t->key;
  return inorder(t->right, keys, n);
}
static void sizes(sTree *t) {
  if (!t) return;
  lc_check(t->value == 1 + node_value(t->left) + node_value(t->right), "a subtree size is wrong");
  sizes(t->left);
  sizes(t->right);
}
static void tree(int L) {
  sTree *t = NULL;
  long long key[MAXN];
  bool in[MAXN];
  int n = 0;
  for (int s = 0; s < L; s++) {
    int init = (int)lc_param("init", 1), perm = (int)lc_param("perm", 0);
    int op = s < init ? 0 : (int)lc_choose("op", 3);
    long long k = perm && s >= init ? (long long)lc_choose("key", 2 * (uint64_t)perm + 1) - 1 : perm ? (long long)anypri() : (long long)lc_sym("key", (int)lc_param("keybits", 48)) - (1ll << (lc_param("keybits", 48) - 1));
    int at = -1;
    for (int i = 0; i < n; i++) if (key[i] == k) at = i;
    if (at < 0) { at = n; key[n] = k; in[n++] = false; }
    if (op == 0) {
      t = insert(k, t);
      in[at] = true;
      lc_check(t && t->key == k, "the inserted key is not at the root");
    } else if (op == 1) {
      t = splay_delete(k, t);
      if (in[at]) lc_cover("deleted");
      in[at] = false;
    } else {
      t = splay(k, t);
      bool f = t && t->key == k;
      lc_check(f == in[at], f ? "a key that is not in the tree was found" : "a key in the tree was not found");
      if (f) {
        long less = 0, greater = 0;
        for (int i = 0; i < n; i++) { less += in[i] & (key[i] < k); greater += in[i] & (key[i] > k); }
        lc_check(node_value(t->left) == less && node_value(t->right) == greater, "the rank of a key is wrong");
        lc_cover("ranked");
      }
    }
    // the tree is a search tree over exactly the keys inserted, with correct subtree sizes
    long long ks[64];
    int m = inorder(t, ks, 0), c = 0;
    for (int i = 0; i < n; i++) if (in[i]) c++;
    lc_check(m == c, "the tree holds a different number of keys than were inserted");
    for (int i = 1; i < m; i++) lc_check(ks[i - 1] < ks[i], "the keys are out of order");
    for (int j = 0; j < m; j++) {
      bool ok = false;
      for (int i = 0; i < n; i++) if (in[i] && key[i] == ks[j]) ok = true;
      lc_check(ok, "the tree holds a key that was not inserted");
    }
    sizes(t);
    lc_observe("n", (uint64_t)m);
  }
  free_sTree(t);
}

void lc_main(void) {
  if (!strcmp(lc_sparam("what", "pq"), "pq")) pq((int)lc_param("ops", 6), (int)lc_param("maxn", 4));
  else tree((int)lc_param("ops", 5));
}
