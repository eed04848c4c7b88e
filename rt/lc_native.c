// Native side of the harness interface: replays one set of input values against the compiled code under test.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <pthread.h>
#include <semaphore.h>
#include "lc.h"
static struct { char name[64]; uint64_t v; } *vals;
static int nv, pos, expecting;
static char dir[256];
static char *params;
static void load(void) {
  const char *p = getenv("LC_REPLAY");
  params = getenv("LC_PARAMS") ? strdup(getenv("LC_PARAMS")) : strdup("");
  vals = calloc(100000, sizeof *vals);
  FILE *f = p ? fopen(p, "r") : NULL;
  if (!f) return;
  char line[512];
  while (fgets(line, sizeof line, f)) {
    char n[64]; unsigned long long v;
    if (sscanf(line, "%63s %llu", n, &v) == 2) { strcpy(vals[nv].name, n); vals[nv++].v = v; }
  }
  fclose(f);
}
static uint64_t next(const char *name) {
  if (pos >= nv) { return 0; }  // inputs the counterexample did not reach
  if (strcmp(vals[pos].name, name) != 0) { printf("LC_DIVERGED expected %s got %s\n", vals[pos].name, name); fflush(stdout); _exit(78); }
  return vals[pos++].v;
}
uint64_t lc_sym(const char *name, int bits) { uint64_t v = next(name); return bits >= 64 ? v : v & (((uint64_t)1 << bits) - 1); }
uint64_t lc_range(const char *name, uint64_t lo, uint64_t hi) { if (pos >= nv) return lo; uint64_t v = next(name); if (v < lo || v > hi) { printf("LC_DIVERGED range %s\n", name); fflush(stdout); _exit(78); } return v; }
void lc_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(name); }
void lc_assume(bool c) { if (!c) { printf("LC_ASSUME\n"); fflush(stdout); _exit(77); } }
void lc_check_(bool c, const char *msg) { if (!c) { printf("LC_FAIL %s\n", msg); fflush(stdout); _exit(70); } }
void lc_cover(const char *l) { (void)l; }
void lc_observe(const char *l, uint64_t v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
uint64_t lc_concretize(uint64_t v) { return v; }
void lc_done(void) { printf("LC_DONE\n"); fflush(stdout); _exit(0); }
int lc_engine(void) { return 0; }
static const char *findp(const char *n) {
  static char buf[256];
  size_t l = strlen(n);
  for (char *p = params; *p;) {
    char *e = strchr(p, ';');
    size_t k = e ? (size_t)(e - p) : strlen(p);
    if (k > l && strncmp(p, n, l) == 0 && p[l] == '=') { snprintf(buf, sizeof buf, "%.*s", (int)(k - l - 1), p + l + 1); return buf; }
    p += k + (e ? 1 : 0);
  }
  return NULL;
}
int64_t lc_param(const char *n, int64_t d) { const char *v = findp(n); return v ? strtoll(v, NULL, 0) : d; }
const char *lc_sparam(const char *n, const char *d) { const char *v = findp(n); return v ? strdup(v) : d; }
static void onabrt(int s) { (void)s; if (expecting) _exit(79); signal(SIGABRT, SIG_DFL); }
void lc_expect_abort(int on) { expecting = on; signal(SIGABRT, onabrt); }
static void onexit_(void) { if (expecting) _exit(79); }
uint64_t lc_live(void) { return 0; }
void lc_print(const char *l, uint64_t v) { fprintf(stderr, "lc_print %s %lld\n", l, (long long)v); }
int lc_valid(const void *p, size_t n) { (void)p; (void)n; return 1; }
static const char *mk(const char *name) {
  char b[4400];
  snprintf(b, sizeof b, "%s/%s", dir, name);
  for (char *p = b + strlen(dir) + 1; (p = strchr(p, '/')); p++) { *p = 0; mkdir(b, 0755); *p = '/'; }
  return strdup(b);
}
const char *lc_file(const char *name, const void *data, size_t len) {
  const char *p = mk(name);
  FILE *f = fopen(p, "w");
  if (len) fwrite(data, 1, len, f);
  fclose(f);
  return p;
}
const char *lc_newfile(const char *name) { return mk(name); }
long lc_filesize(const char *p) { struct stat st; return stat(p, &st) == 0 ? (long)st.st_size : -1; }
long lc_readfile(const char *p, void *b, long cap) { FILE *f = fopen(p, "r"); if (!f) return -1; long n = fread(b, 1, cap, f); fclose(f); return n; }
// a mapped file is exactly as long as the file: accesses beyond it are caught like those of any other buffer
void *__real_mmap(void *a, size_t n, int pr, int fl, int fd, long off);
int __real_munmap(void *p, size_t n);
static void *maps[64];
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, long off) {
  if (fd < 0) return __real_mmap(a, n, pr, fl, fd, off);
  for (int i = 0; i < 64; i++)
    if (!maps[i]) {
      char *m = malloc(n);
      if (pread(fd, m, n, off) < 0) { free(m); return (void *)-1; }
      return maps[i] = m;
    }
  return (void *)-1;
}
int __wrap_munmap(void *p, size_t n) {
  for (int i = 0; i < 64; i++)
    if (p && maps[i] == p) { maps[i] = 0; free(p); return 0; }
  return __real_munmap(p, n);
}
// The pool of the replay: the tasks run one at a time on real threads in the order the counterexample names. With
// LC_FREE set (race reports, under ThreadSanitizer) all tasks run at the same time.
typedef struct { sem_t go, done; void (*f)(void *, void *); void *d, *u; pthread_t t; } wrk_t;
typedef struct { void (*f)(void *, void *); void *user, *q[64]; int n, pushed, max, threads; wrk_t *w[64]; } pool_t;
int lc_sched_now(int pending);
int lc_sched_pick(int pending);
int lc_sched_thread(int threads, int max);
static pool_t *the_pool;
static void *work(void *p) {
  wrk_t *w = p;
  for (;;) {
    sem_wait(&w->go);
    if (!w->f) return NULL;
    w->f(w->d, w->u);
    sem_post(&w->done);
  }
}
static wrk_t *spawn(void) {
  wrk_t *w = calloc(1, sizeof *w);
  sem_init(&w->go, 0, 0);
  sem_init(&w->done, 0, 0);
  pthread_create(&w->t, NULL, work, w);
  return w;
}
void *g_thread_pool_new(void (*f)(void *, void *), void *u, int mt, int ex, void **e) {
  (void)ex; (void)e;
  pool_t *p = calloc(1, sizeof *p);
  p->f = f; p->user = u; p->max = mt;
  return the_pool = p;
}
static void pool_one(pool_t *p) {
  int i = lc_sched_pick(p->n);
  void *d = p->q[i];
  for (; i + 1 < p->n; i++) p->q[i] = p->q[i + 1];
  p->n--;
  int th = lc_sched_thread(p->threads, p->max);
  wrk_t *w;
  if (getenv("LC_FREE")) {
    if (th > p->threads) p->threads = th;
    static int k;
    w = p->w[k++] = spawn();
  } else {
    if (th > p->threads) p->w[p->threads++] = spawn();
    w = p->w[th - 1];
  }
  w->f = p->f; w->d = d; w->u = p->user;
  sem_post(&w->go);
  if (!getenv("LC_FREE")) sem_wait(&w->done);
}
int g_thread_pool_push(void *pp, void *d, void **e) {
  (void)e;
  pool_t *p = pp;
  p->q[p->n++] = d;
  while (p->n && lc_sched_now(p->n)) pool_one(p);
  return 1;
}
unsigned sleep(unsigned s) { (void)s; if (the_pool && the_pool->n) pool_one(the_pool); else usleep(1000); return 0; }
unsigned g_thread_pool_unprocessed(void *p) { return (unsigned)((pool_t *)p)->n; }
void g_thread_pool_free(void *pp, int imm, int wait) {
  (void)imm; (void)wait;
  pool_t *p = pp;
  while (p->n) pool_one(p);
  for (int i = 0; i < 64; i++)
    if (p->w[i]) {
      if (getenv("LC_FREE")) sem_wait(&p->w[i]->done);
      p->w[i]->f = NULL;
      sem_post(&p->w[i]->go);
      pthread_join(p->w[i]->t, NULL);
      free(p->w[i]);
    }
  the_pool = NULL;
  free(p);
}
// mutexes that ThreadSanitizer sees
void g_mutex_init(void *m) { *(pthread_mutex_t **)m = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*(pthread_mutex_t **)m, NULL); }
void g_mutex_lock(void *m) { pthread_mutex_lock(*(pthread_mutex_t **)m); }
void g_mutex_unlock(void *m) { pthread_mutex_unlock(*(pthread_mutex_t **)m); }
void g_mutex_clear(void *m) { free(*(pthread_mutex_t **)m); }
int main(void) {
  load();
  const char *d = getenv("LC_DIR");
  snprintf(dir, sizeof dir, "%s", d ? d : ".");
  atexit(onexit_);
  lc_main();
  if (expecting) expecting = 0;
  printf("LC_DONE\n");
  fflush(stdout);
  _exit(0);
}
