// C models of the library functions the code under test calls; executed symbolically together with it.
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "lc.h"

void *malloc(size_t);
void *calloc(size_t, size_t);
void *realloc(void *, size_t);
void free(void *);
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
void abort(void);

/* ------------------------------------------------------------------ strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lower(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) {
  for (;; a++, b++) { int x = lower((unsigned char)*a), y = lower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { int x = lower((unsigned char)*a), y = lower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; }
  return 0;
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  char *p = d + strlen(d); size_t i = 0;
  for (; i < n && s[i]; i++) p[i] = s[i];
  p[i] = 0;
  return d;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  if (!l) return (char *)h;
  for (; *h; h++) if (strncmp(h, n, l) == 0) return (char *)h;
  return 0;
}
char *strcasestr(const char *h, const char *n) {
  size_t l = strlen(n);
  if (!l) return (char *)h;
  for (; *h; h++) if (strncasecmp(h, n, l) == 0) return (char *)h;
  return 0;
}
char *strsep(char **sp, const char *delim) {
  char *s = *sp, *p;
  if (!s) return 0;
  for (p = s; *p; p++)
    for (const char *d = delim; *d; d++)
      if (*p == *d) { *p = 0; *sp = p + 1; return s; }
  *sp = 0;
  return s;
}
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n] && strchr(a, s[n]); n++); return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n] && !strchr(a, s[n]); n++); return n; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **save) {
  if (!s) s = *save;
  if (!s) return 0;
  s += strspn(s, d);
  if (!*s) { *save = 0; return 0; }
  char *e = s + strcspn(s, d);
  if (*e) { *e = 0; *save = e + 1; } else *save = 0;
  return s;
}
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *g_strdup(const char *s) { return s ? strdup(s) : 0; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
char *strerror(int e) { (void)e; return "error"; }

/* ctype table as glibc lays it out (C locale) */
static unsigned short ctab[384];
static const unsigned short *ctabp;
static const int *tolowp, *toupp;
static int tolow[384], toup[384];
const unsigned short **__ctype_b_loc(void) {
  if (!ctabp) {
    for (int c = 0; c < 128; c++) {
      unsigned short f = 0;
      int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
      if (up) f |= 1 << 8;             // upper
      if (lo) f |= 1 << 9;             // lower
      if (up || lo) f |= 1 << 10;      // alpha
      if (dg) f |= 1 << 11;            // digit
      if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) f |= 1 << 12;
      if (c == ' ' || (c >= 9 && c <= 13)) f |= 1 << 13;   // space
      if (c >= 32 && c < 127) f |= 1 << 14;                // print
      if (c > 32 && c < 127) f |= 1 << 15;                 // graph
      if (c == ' ' || c == 9) f |= 1 << 0;                 // blank
      if (c < 32 || c == 127) f |= 1 << 1;                 // cntrl
      if (c > 32 && c < 127 && !(up || lo || dg)) f |= 1 << 2;  // punct
      if (up || lo || dg) f |= 1 << 3;                     // alnum
      ctab[128 + c] = f;
    }
    ctabp = ctab + 128;
  }
  return &ctabp;
}
const int **__ctype_tolower_loc(void) {
  if (!tolowp) { for (int c = -128; c < 256; c++) tolow[128 + c] = lower(c); tolowp = tolow + 128; }
  return &tolowp;
}
const int **__ctype_toupper_loc(void) {
  if (!toupp) { for (int c = -128; c < 256; c++) toup[128 + c] = toupper(c); toupp = toup + 128; }
  return &toupp;
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
static int err_no;
int *__errno_location(void) { return &err_no; }

static int isSpace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int digitOf(int c) {
  if (c >= '0' && c <= '9') return c & 15;  /* = c - '0' */
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static unsigned long long conv(const char *s, char **end, int base, int sgn) {
  const char *p = s;
  while (isSpace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { base = 16; p += 2; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0;
  int any = 0, ovf = 0, nd = 0;  /* fewer than 16 (hexadecimal) or 20 (decimal) digits cannot overflow */
  for (;; p++) {
    int d = digitOf((unsigned char)*p);
    if (d >= base) break;
    any = 1;
    if (++nd > (base == 10 ? 19 : 15) && v > (~0ull - d) / base) ovf = 1;
    v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  if (nd <= (base != 10 ? 15 : sgn ? 18 : 19)) return neg ? 0 - v : v;
  if (sgn) {
    if (ovf || (!neg && v > 0x7fffffffffffffffull) || (neg && v > 0x8000000000000000ull)) { err_no = ERANGE; return neg ? 0x8000000000000000ull : 0x7fffffffffffffffull; }
    return neg ? 0 - v : v;
  }
  if (ovf) { err_no = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)conv(s, e, b, 1); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)conv(s, e, b, 1); }
long long strtoll(const char *s, char **e, int b) { return (long long)conv(s, e, b, 1); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)conv(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return conv(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return conv(s, e, b, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return conv(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return conv(s, e, b, 0); }
int atoi(const char *s) { return (int)conv(s, 0, 10, 1); }
long atol(const char *s) { return (long)conv(s, 0, 10, 1); }
long long atoll(const char *s) { return (long long)conv(s, 0, 10, 1); }
double strtod(const char *s, char **end) {
  const char *p = s;
  while (isSpace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  uint64_t m = 0;
  int scale = 0, any = 0, nd = 0;
  for (; *p >= '0' && *p <= '9'; p++) { any = 1; if (nd < 18) { m = m * 10 + (uint64_t)(*p & 15); if (m) nd++; } else scale++; }
  if (*p == '.') {
    p++;
    for (; *p >= '0' && *p <= '9'; p++) { any = 1; if (nd < 18) { m = m * 10 + (uint64_t)(*p & 15); if (m) nd++; scale--; } }
  }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') {
    const char *q = p + 1;
    int en = 0, ev = 0;
    if (*q == '-') { en = 1; q++; } else if (*q == '+') q++;
    if (*q >= '0' && *q <= '9') { for (; *q >= '0' && *q <= '9'; q++) if (ev < 1000) ev = ev * 10 + (*q - '0'); scale += en ? -ev : ev; p = q; }
  }
  if (end) *end = (char *)p;
  if (scale == 0 && nd <= 15) { return (double)(int64_t)(neg ? 0 - m : m); }
  m = lc_concretize(m);
  long double v = (long double)m, pw = 1;   /* exact for the short decimals used here: one rounding in the division/multiplication */
  int k = scale < 0 ? -scale : scale;
  for (int i = 0; i < k && i < 400; i++) pw *= 10;
  v = scale < 0 ? v / pw : v * pw;
  return (double)(neg ? -v : v);
}
float strtof(const char *s, char **end) { return (float)strtod(s, end); }
double atof(const char *s) { return strtod(s, 0); }

void srand(unsigned s) { (void)s; }
int rand(void) { return 7; }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *__xpg_basename(char *s) { char *p = strrchr(s, '/'); return p ? p + 1 : s; }
char *index(const char *s, int c) { return strchr(s, c); }

/* ------------------------------------------------------------------ command lines */
typedef int error_t;
struct argp_state;
struct argp_option { const char *name; int key; const char *arg; int flags; const char *doc; int group; };
struct argp { const struct argp_option *options; error_t (*parser)(int, char *, struct argp_state *); };
struct argp_state { const struct argp *root_argp; int argc; char **argv; int next; unsigned flags, arg_num; int quoted; void *input, **child_inputs, *hook; char *name; void *err, *out, *pstate; };
void argp_usage(const struct argp_state *st) { (void)st; abort(); }
error_t argp_parse(const struct argp *ap, int argc, char **argv, unsigned flags, int *idx, void *input) {
  struct argp_state st;
  (void)flags; (void)idx;
  memset(&st, 0, sizeof st);
  st.root_argp = ap; st.argc = argc; st.argv = argv; st.input = input;
  int npos = 0;
  char **pos = malloc(sizeof(char *) * (argc + 1));
  for (int i = 1; i < argc; i++) {
    char *a = argv[i];
    if (a[0] != '-' || !a[1]) { pos[npos++] = a; continue; }
    const struct argp_option *o = ap->options;
    char *val = 0;
    if (a[1] == '-') {
      for (; o->name || o->key || o->doc || o->arg; o++) {
        if (!o->name) continue;
        size_t n = strlen(o->name);
        if (strncmp(a + 2, o->name, n) == 0 && (a[2 + n] == 0 || a[2 + n] == '=')) { if (a[2 + n]) val = a + 3 + n; break; }
      }
    } else {
      for (; o->name || o->key || o->doc || o->arg; o++)
        if (o->key == a[1]) { if (a[2]) val = a + 2; break; }
    }
    if (!o->key) abort();
    if (o->arg && !val) { if (i + 1 >= argc) abort(); val = argv[++i]; }
    if (ap->parser(o->key, val, &st)) abort();
  }
  for (int i = 0; i < npos; i++) {
    if (ap->parser(0, pos[i], &st)) abort();
    st.arg_num++;
  }
  free(pos);
  ap->parser(0x1000001, 0, &st);
  return 0;
}

/* ------------------------------------------------------------------ sorting */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  char *b = base;
  char *t = malloc(sz);
  for (size_t i = 1; i < n; i++) {
    size_t j = i;
    memcpy(t, b + i * sz, sz);
    while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
    memcpy(b + j * sz, t, sz);
  }
  free(t);
}

/* ------------------------------------------------------------------ files */
typedef struct { char *path; unsigned char *data; size_t len, cap; } vfile;
static vfile vfs[16];
static int nvf;
typedef struct { int used; int f; size_t pos; int eof; int wr; } vfd;
static vfd fds[32];
static vfile *vf_find(const char *p) {
  for (int i = 0; i < nvf; i++) if (strcmp(vfs[i].path, p) == 0) return &vfs[i];
  return 0;
}
static const char *vpath(const char *name) {
  char *p = malloc(strlen(name) + 6);
  memcpy(p, "/lcv/", 5);
  strcpy(p + 5, name);
  return p;
}
const char *lc_file(const char *name, const void *data, size_t len) {
  if (nvf >= 16) abort();
  vfile *v = &vfs[nvf++];
  v->path = (char *)vpath(name);
  v->data = malloc(len ? len : 1);
  memcpy(v->data, data, len);
  v->len = v->cap = len;
  return v->path;
}
const char *lc_newfile(const char *name) { return vpath(name); }
long lc_filesize(const char *p) { vfile *v = vf_find(p); return v ? (long)v->len : -1; }
long lc_readfile(const char *p, void *buf, long cap) {
  vfile *v = vf_find(p);
  if (!v) return -1;
  long n = (long)v->len < cap ? (long)v->len : cap;
  memcpy(buf, v->data, n);
  return n;
}
int remove(const char *p) {
  vfile *v = vf_find(p);
  if (!v) { err_no = ENOENT; return -1; }
  v->path = "";
  return 0;
}
int unlink(const char *p) { return remove(p); }
static int vopen(const char *p, int create, int trunc) {
  vfile *v = vf_find(p);
  if (!v) {
    if (!create || nvf >= 16) { err_no = ENOENT; return -1; }
    v = &vfs[nvf++];
    v->path = strdup(p); v->data = 0; v->len = v->cap = 0;
  } else if (trunc) v->len = 0;
  for (int i = 3; i < 32; i++) if (!fds[i].used) { fds[i].used = 1; fds[i].f = v - vfs; fds[i].pos = 0; fds[i].eof = 0; fds[i].wr = create; return i; }
  return -1;
}
int open(const char *p, int fl, ...) { return vopen(p, (fl & O_CREAT) != 0, (fl & O_TRUNC) != 0); }
int open64(const char *p, int fl, ...) { return vopen(p, (fl & O_CREAT) != 0, (fl & O_TRUNC) != 0); }
int close(int fd) { if (fd < 3 || !fds[fd].used) return -1; fds[fd].used = 0; return 0; }
int access(const char *p, int m) { (void)m; if (vf_find(p)) return 0; err_no = ENOENT; return -1; }
int fstat(int fd, struct stat *st) {
  if (fd < 3 || !fds[fd].used) return -1;
  memset(st, 0, sizeof *st);
  st->st_size = vfs[fds[fd].f].len;
  st->st_mode = S_IFREG | 0644;
  return 0;
}
int stat(const char *p, struct stat *st) {
  vfile *v = vf_find(p);
  if (!v) { err_no = ENOENT; return -1; }
  memset(st, 0, sizeof *st);
  st->st_size = v->len;
  st->st_mode = S_IFREG | 0644;
  return 0;
}
void *mmap(void *a, size_t n, int pr, int fl, int fd, long off) {
  (void)a; (void)pr; (void)fl;
  if (fd < 0) return calloc(1, n);
  if (!fds[fd].used) return (void *)-1;
  vfile *v = &vfs[fds[fd].f];
  unsigned char *m = malloc(n);
  for (size_t i = 0; i < n; i++) m[i] = off + i < v->len ? v->data[off + i] : 0;
  return m;
}
int munmap(void *p, size_t n) { (void)n; free(p); return 0; }
long read(int fd, void *b, size_t n) {
  vfile *v = &vfs[fds[fd].f];
  size_t av = v->len - fds[fd].pos;
  if (n > av) n = av;
  memcpy(b, v->data + fds[fd].pos, n);
  fds[fd].pos += n;
  return n;
}
typedef struct { int fd; } vFILE;
void *fopen(const char *p, const char *m) {
  int cr = m[0] == 'w' || m[0] == 'a';
  int fd = vopen(p, cr, m[0] == 'w');
  if (fd < 0) return 0;
  if (m[0] == 'a') fds[fd].pos = vfs[fds[fd].f].len;
  vFILE *f = malloc(sizeof *f);
  f->fd = fd;
  return f;
}
int fclose(vFILE *f) { int fd = f->fd; fds[fd].used = 0; free(f); return 0; }
int fileno(vFILE *f) { return f->fd; }
int feof(vFILE *f) { return fds[f->fd].eof; }
int ferror(vFILE *f) { (void)f; return 0; }
void clearerr(vFILE *f) { fds[f->fd].eof = 0; }
size_t fread(void *b, size_t sz, size_t n, vFILE *f) {
  vfd *d = &fds[f->fd];
  vfile *v = &vfs[d->f];
  size_t want = sz * n, av = d->pos < v->len ? v->len - d->pos : 0, got = want < av ? want : av;
  memcpy(b, v->data + d->pos, got);
  d->pos += got;
  if (got < want) d->eof = 1;
  return sz ? got / sz : 0;
}
size_t fwrite(const void *b, size_t sz, size_t n, vFILE *f) {
  vfd *d = &fds[f->fd];
  vfile *v = &vfs[d->f];
  size_t k = sz * n;
  if (d->pos + k > v->cap) {
    size_t nc = (d->pos + k) * 2;
    unsigned char *q = calloc(1, nc);
    if (v->len) memcpy(q, v->data, v->len);
    free(v->data);
    v->data = q;
    v->cap = nc;
  }
  memcpy(v->data + d->pos, b, k);
  d->pos += k;
  if (d->pos > v->len) v->len = d->pos;
  return n;
}
int fseek(vFILE *f, long o, int wh) {
  vfd *d = &fds[f->fd];
  long b = wh == 0 ? 0 : wh == 1 ? (long)d->pos : (long)vfs[d->f].len;
  if (b + o < 0) return -1;
  d->pos = b + o;
  d->eof = 0;
  return 0;
}
int fseeko(vFILE *f, long o, int wh) { return fseek(f, o, wh); }
long ftell(vFILE *f) { return fds[f->fd].pos; }
long ftello(vFILE *f) { return fds[f->fd].pos; }
void rewind(vFILE *f) { fseek(f, 0, 0); }
long getdelim(char **lp, size_t *np, int dl, vFILE *f) {
  vfd *d = &fds[f->fd];
  vfile *v = &vfs[d->f];
  if (d->pos >= v->len) { d->eof = 1; return -1; }
  size_t e = d->pos;
  while (e < v->len && v->data[e] != dl) e++;
  if (e < v->len) e++; else d->eof = 1;
  size_t n = e - d->pos;
  if (!*lp || *np < n + 1) { *np = n + 1 < 120 ? 120 : n + 1; *lp = realloc(*lp, *np); }
  memcpy(*lp, v->data + d->pos, n);
  (*lp)[n] = 0;
  d->pos = e;
  return n;
}
long getline(char **lp, size_t *np, vFILE *f) { return getdelim(lp, np, '\n', f); }
char *fgets(char *b, int n, vFILE *f) {
  vfd *d = &fds[f->fd];
  vfile *v = &vfs[d->f];
  int i = 0;
  while (i < n - 1 && d->pos < v->len) { char c = v->data[d->pos++]; b[i++] = c; if (c == '\n') break; }
  if (i == 0) { d->eof = 1; return 0; }
  b[i] = 0;
  return b;
}
int mkdir(const char *p, unsigned m) { (void)p; (void)m; return 0; }
char *getcwd(char *b, size_t n) { (void)n; strcpy(b, "/lcv"); return b; }
char *getenv(const char *n) { (void)n; return 0; }
long sysconf(int n) { (void)n; return 4; }
int get_nprocs(void) { return 4; }
int pthread_setaffinity_np(unsigned long t, size_t n, const void *c) { (void)t; (void)n; (void)c; return 0; }

/* ------------------------------------------------------------------ glib */
typedef void *gpointer;
typedef const void *gconstpointer;
typedef struct GHT_ { gpointer *k, *v; int n, cap; unsigned (*h)(gconstpointer); int (*eq)(gconstpointer, gconstpointer); void (*kd)(gpointer); void (*vd)(gpointer); int ref; } GHT;
unsigned g_direct_hash(gconstpointer p) { return (unsigned)(uintptr_t)p; }
int g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
unsigned g_int64_hash(gconstpointer p) { return (unsigned)*(const uint64_t *)p; }
int g_int64_equal(gconstpointer a, gconstpointer b) { return *(const uint64_t *)a == *(const uint64_t *)b; }
unsigned g_int_hash(gconstpointer p) { return (unsigned)*(const int *)p; }
int g_int_equal(gconstpointer a, gconstpointer b) { return *(const int *)a == *(const int *)b; }
unsigned g_str_hash(gconstpointer p) { (void)p; return 0; }
int g_str_equal(gconstpointer a, gconstpointer b) { return strcmp(a, b) == 0; }
GHT *g_hash_table_new_full(unsigned (*h)(gconstpointer), int (*eq)(gconstpointer, gconstpointer), void (*kd)(gpointer), void (*vd)(gpointer)) {
  GHT *t = calloc(1, sizeof *t);
  t->cap = 4;
  t->k = malloc(4 * sizeof(gpointer));
  t->v = malloc(4 * sizeof(gpointer));
  t->h = h; t->eq = eq; t->kd = kd; t->vd = vd; t->ref = 1;
  return t;
}
GHT *g_hash_table_new(unsigned (*h)(gconstpointer), int (*eq)(gconstpointer, gconstpointer)) {
  /* glib: a NULL equality means direct comparison; with g_int64_hash and no equality keys are compared by pointer after the hash matched */
  return g_hash_table_new_full(h, eq, 0, 0);
}
static int ht_find(GHT *t, gconstpointer key) {
  for (int i = 0; i < t->n; i++) {
    if (t->eq && t->eq != g_direct_equal) { if (t->eq(t->k[i], key)) return i; }
    else if (t->k[i] == key) return i;
  }
  return -1;
}
static int ht_put(GHT *t, gpointer key, gpointer val, int repl) {
  int i = ht_find(t, key);
  if (i >= 0) {
    if (repl) { gpointer ok = t->k[i]; t->k[i] = key; if (t->kd) t->kd(ok); }
    else if (t->kd) t->kd(key);
    gpointer ov = t->v[i];
    t->v[i] = val;
    if (t->vd) t->vd(ov);
    return 0;
  }
  if (t->n == t->cap) { t->cap *= 2; t->k = realloc(t->k, t->cap * sizeof(gpointer)); t->v = realloc(t->v, t->cap * sizeof(gpointer)); }
  t->k[t->n] = key;
  t->v[t->n++] = val;
  return 1;
}
int g_hash_table_insert(GHT *t, gpointer k, gpointer v) { return ht_put(t, k, v, 0); }
int g_hash_table_replace(GHT *t, gpointer k, gpointer v) { return ht_put(t, k, v, 1); }
int g_hash_table_add(GHT *t, gpointer k) { return ht_put(t, k, k, 1); }
gpointer g_hash_table_lookup(GHT *t, gconstpointer k) { int i = ht_find(t, k); return i >= 0 ? t->v[i] : 0; }
int g_hash_table_contains(GHT *t, gconstpointer k) { return ht_find(t, k) >= 0; }
int g_hash_table_lookup_extended(GHT *t, gconstpointer k, gpointer *ok, gpointer *ov) {
  int i = ht_find(t, k);
  if (i < 0) return 0;
  if (ok) *ok = t->k[i];
  if (ov) *ov = t->v[i];
  return 1;
}
int g_hash_table_remove(GHT *t, gconstpointer k) {
  int i = ht_find(t, k);
  if (i < 0) return 0;
  gpointer ok = t->k[i], ov = t->v[i];
  for (; i + 1 < t->n; i++) { t->k[i] = t->k[i + 1]; t->v[i] = t->v[i + 1]; }
  t->n--;
  if (t->kd) t->kd(ok);
  if (t->vd) t->vd(ov);
  return 1;
}
unsigned g_hash_table_size(GHT *t) { return t->n; }
void g_hash_table_remove_all(GHT *t) {
  for (int i = 0; i < t->n; i++) { if (t->kd) t->kd(t->k[i]); if (t->vd) t->vd(t->v[i]); }
  t->n = 0;
}
void g_hash_table_destroy(GHT *t) { g_hash_table_remove_all(t); if (--t->ref > 0) return; free(t->k); free(t->v); free(t); }
void g_hash_table_unref(GHT *t) { g_hash_table_destroy(t); }
GHT *g_hash_table_ref(GHT *t) { t->ref++; return t; }
void g_hash_table_foreach(GHT *t, void (*f)(gpointer, gpointer, gpointer), gpointer u) { for (int i = 0; i < t->n; i++) f(t->k[i], t->v[i], u); }

typedef struct GL_ { gpointer data; struct GL_ *next, *prev; } GL;
GL *g_list_alloc(void) { return calloc(1, sizeof(GL)); }
void g_list_free_1(GL *l) { free(l); }
void g_list_free(GL *l) { while (l) { GL *n = l->next; free(l); l = n; } }
GL *g_list_prepend(GL *l, gpointer d) {
  GL *n = g_list_alloc();
  n->data = d;
  n->next = l;
  if (l) { n->prev = l->prev; if (l->prev) l->prev->next = n; l->prev = n; }
  return n;
}
GL *g_list_append(GL *l, gpointer d) {
  GL *n = g_list_alloc();
  n->data = d;
  if (!l) return n;
  GL *e = l;
  while (e->next) e = e->next;
  e->next = n; n->prev = e;
  return l;
}
unsigned g_list_length(GL *l) { unsigned n = 0; while (l) { n++; l = l->next; } return n; }
typedef struct { GL *head, *tail; unsigned length; } GQ;
GQ *g_queue_new(void) { return calloc(1, sizeof(GQ)); }
void g_queue_init(GQ *q) { q->head = q->tail = 0; q->length = 0; }
gpointer g_queue_peek_head(GQ *q) { return q->head ? q->head->data : 0; }
gpointer g_queue_peek_tail(GQ *q) { return q->tail ? q->tail->data : 0; }
void g_queue_push_tail_link(GQ *q, GL *l) {
  l->prev = q->tail;
  l->next = 0;
  if (q->tail) q->tail->next = l; else q->head = l;
  q->tail = l;
  q->length++;
}
void g_queue_push_head_link(GQ *q, GL *l) {
  l->next = q->head;
  l->prev = 0;
  if (q->head) q->head->prev = l; else q->tail = l;
  q->head = l;
  q->length++;
}
void g_queue_push_tail(GQ *q, gpointer d) { GL *l = g_list_alloc(); l->data = d; g_queue_push_tail_link(q, l); }
void g_queue_push_head(GQ *q, gpointer d) { GL *l = g_list_alloc(); l->data = d; g_queue_push_head_link(q, l); }
void g_queue_unlink(GQ *q, GL *l) {
  if (l->prev) l->prev->next = l->next; else q->head = l->next;
  if (l->next) l->next->prev = l->prev; else q->tail = l->prev;
  l->next = l->prev = 0;
  q->length--;
}
void g_queue_delete_link(GQ *q, GL *l) { g_queue_unlink(q, l); free(l); }
gpointer g_queue_pop_head(GQ *q) { if (!q->head) return 0; GL *l = q->head; gpointer d = l->data; g_queue_delete_link(q, l); return d; }
gpointer g_queue_pop_tail(GQ *q) { if (!q->tail) return 0; GL *l = q->tail; gpointer d = l->data; g_queue_delete_link(q, l); return d; }
unsigned g_queue_get_length(GQ *q) { return q->length; }
int g_queue_is_empty(GQ *q) { return q->head == 0; }
void g_queue_free(GQ *q) { g_list_free(q->head); free(q); }
void g_queue_free_full(GQ *q, void (*f)(gpointer)) { for (GL *l = q->head; l; l = l->next) f(l->data); g_queue_free(q); }

typedef struct { char *data; unsigned len; unsigned cap, sz; int zt, clr; } GA;
GA *g_array_sized_new(int zt, int clr, unsigned sz, unsigned rsv) {
  GA *a = calloc(1, sizeof *a);
  a->sz = sz; a->zt = zt; a->clr = clr;
  a->cap = rsv ? rsv : 1;
  if (a->cap > 64) a->cap = 64;
  a->data = calloc(a->cap + 1, sz);
  return a;
}
GA *g_array_new(int zt, int clr, unsigned sz) { return g_array_sized_new(zt, clr, sz, 0); }
GA *g_array_append_vals(GA *a, gconstpointer d, unsigned n) {
  while (a->len + n > a->cap) { char *q = calloc(a->cap * 2 + 1, a->sz); memcpy(q, a->data, a->len * a->sz); free(a->data); a->data = q; a->cap *= 2; }
  memcpy(a->data + (size_t)a->len * a->sz, d, (size_t)n * a->sz);
  a->len += n;
  return a;
}
char *g_array_free(GA *a, int seg) { char *d = a->data; if (seg) { free(d); d = 0; } free(a); return d; }
GA *g_array_remove_index_fast(GA *a, unsigned i) {
  if (i != a->len - 1) memcpy(a->data + (size_t)i * a->sz, a->data + (size_t)(a->len - 1) * a->sz, a->sz);
  a->len--;
  return a;
}
GA *g_array_remove_index(GA *a, unsigned i) {
  for (; i + 1 < a->len; i++) memcpy(a->data + (size_t)i * a->sz, a->data + (size_t)(i + 1) * a->sz, a->sz);
  a->len--;
  return a;
}
GA *g_array_set_size(GA *a, unsigned n) { while (a->len < n) { char z[256] = {0}; g_array_append_vals(a, z, 1); } a->len = n; return a; }
void g_array_sort(GA *a, int (*c)(gconstpointer, gconstpointer)) { qsort(a->data, a->len, a->sz, c); }
static int tmr;
void *g_timer_new(void) { return &tmr; }
void g_timer_destroy(void *t) { (void)t; }
void g_timer_start(void *t) { (void)t; }
void g_timer_stop(void *t) { (void)t; }
double g_timer_elapsed(void *t, unsigned long *us) { (void)t; if (us) *us = 0; return 0; }
static char **quarks;
static int n_quarks;
unsigned g_quark_from_string(const char *s) {
  if (!s) return 0;
  for (int i = 0; i < n_quarks; i++)
    if (strcmp(quarks[i], s) == 0) return (unsigned)i + 1;
  if (!quarks) quarks = malloc(256 * sizeof(char *));
  if (n_quarks == 256) __builtin_trap();
  quarks[n_quarks] = strdup(s);
  return (unsigned)++n_quarks;
}
unsigned g_quark_from_static_string(const char *s) { return g_quark_from_string(s); }
/* thread pool: every task runs synchronously, in the order pushed, or in reverse order when free()d (parameter) */
/* Threads: with sched=1 every queued task may start at once, while its creator sleeps or at the end, in any order, on a
   thread of its own or on one that ran an earlier task. lc_common.c has the choices, which the native replay repeats. */
typedef struct { gpointer data, user; int excl; void (*f)(gpointer, gpointer); void **q; int *no; int n, cap, pushed, max, threads; } GTP;
void lc_thread_op(unsigned op, uint64_t arg);
int lc_sched_now(int pending);
int lc_sched_pick(int pending);
int lc_sched_thread(int threads, int max);
static GTP *the_pool;
GTP *g_thread_pool_new(void (*f)(gpointer, gpointer), gpointer u, int mt, int ex, void **e) {
  (void)e;
  GTP *p = calloc(1, sizeof *p);
  p->f = f; p->user = u; p->excl = ex; p->cap = 64; p->max = mt;
  p->q = calloc(64, sizeof(void *));
  p->no = calloc(64, sizeof(int));
  the_pool = p;
  if (lc_param("sched", 0)) lc_thread_op(0, 0);
  return p;
}
static void pool_one(GTP *p) {
  int i = lc_param("sched", 0) ? lc_sched_pick(p->n) : 0, no = p->no[i];
  void *d = p->q[i];
  for (; i + 1 < p->n; i++) p->q[i] = p->q[i + 1], p->no[i] = p->no[i + 1];
  p->n--;
  if (lc_param("sched", 0)) {
    int th = lc_sched_thread(p->threads, p->max);
    if (th > p->threads) p->threads = th;
    lc_thread_op(2, (uint64_t)no << 16 | (uint64_t)th);
    p->f(d, p->user);
    lc_thread_op(3, 0);
  } else p->f(d, p->user);
}
int g_thread_pool_push(GTP *p, gpointer d, void **e) {
  (void)e;
  if (p->n >= p->cap) abort();
  p->q[p->n] = d;
  p->no[p->n++] = ++p->pushed;
  if (lc_param("sched", 0)) {
    lc_thread_op(1, 0);
    while (p->n && lc_sched_now(p->n)) pool_one(p);
  }
  return 1;
}
void lc_pool_poll(void) { if (the_pool && the_pool->n) pool_one(the_pool); }
unsigned sleep(unsigned s) { (void)s; lc_pool_poll(); return 0; }
int usleep(unsigned s) { (void)s; lc_pool_poll(); return 0; }
void g_usleep(unsigned long s) { (void)s; lc_pool_poll(); }
void g_thread_pool_free(GTP *p, int imm, int wait) {
  (void)imm;
  if (!wait && lc_param("sched", 0)) abort(); /* tasks would still run afterwards */
  while (p->n) pool_one(p);
  if (lc_param("sched", 0)) lc_thread_op(4, 0);
  the_pool = 0;
  free(p->q); free(p->no); free(p);
}
unsigned g_thread_pool_unprocessed(GTP *p) { return (unsigned)p->n; }

/* ------------------------------------------------------------------ libstdc++ pieces that live in the shared library */
typedef struct RB_ { int color; struct RB_ *parent, *left, *right; } RB;
RB *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RB *x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  RB *y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  if (x->right != y) x = y;
  return x;
}
RB *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(RB *x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
RB *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RB *x) {
  if (x->color == 0 && x->parent->parent == x) return x->right;
  if (x->left) { RB *y = x->left; while (y->right) y = y->right; return y; }
  RB *y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
RB *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(RB *x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
/* an unbalanced search tree is observably the same; the header node keeps leftmost/rightmost/root like libstdc++ */
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RB *x, RB *p, RB *header) {
  x->parent = p; x->left = x->right = 0; x->color = 1;
  if (left) {
    p->left = x;
    if (p == header) { header->parent = x; header->right = x; }
    else if (p == header->left) header->left = x;
  } else {
    p->right = x;
    if (p == header->right) header->right = x;
  }
  header->color = 0;
}
RB *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB *z, RB *header) {
  RB *x, *xp;
  RB *y = z;
  if (!y->left) x = y->right;
  else if (!y->right) x = y->left;
  else { y = y->right; while (y->left) y = y->left; x = y->right; }
  if (y != z) {
    z->left->parent = y;
    y->left = z->left;
    if (y != z->right) {
      xp = y->parent;
      if (x) x->parent = y->parent;
      y->parent->left = x;
      y->right = z->right;
      z->right->parent = y;
    } else xp = y;
    if (header->parent == z) header->parent = y;
    else if (z->parent->left == z) z->parent->left = y;
    else z->parent->right = y;
    y->parent = z->parent;
    y = z;
  } else {
    xp = y->parent;
    if (x) x->parent = y->parent;
    if (header->parent == z) header->parent = x;
    else if (z->parent->left == z) z->parent->left = x;
    else z->parent->right = x;
    if (header->left == z) {
      if (!z->right) header->left = z->parent;
      else { RB *m = x; while (m->left) m = m->left; header->left = m; }
    }
    if (header->right == z) {
      if (!z->left) header->right = z->parent;
      else { RB *m = x; while (m->right) m = m->right; header->right = m; }
    }
  }
  (void)xp;
  return y;
}
/* std::__detail::_Prime_rehash_policy { float max_load; size_t next_resize } */
typedef struct { float ml; size_t nr; } PRP;
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP *p, size_t n) { size_t b = n < 13 ? 13 : n * 2 + 1; p->nr = b; return b; }
typedef struct { bool a; size_t b; } PBR;
PBR _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP *p, size_t nb, size_t ne, size_t ni) {
  PBR r = {false, 0};
  if (ne + ni > p->nr) {
    if (ne + ni >= nb) { r.a = true; r.b = ne + ni < 13 ? 13 : (ne + ni) * 2 + 1; p->nr = r.b; return r; }
    p->nr = nb;
  }
  return r;
}
size_t _ZSt11_Hash_bytesPKvmm(const void *p, size_t n, size_t seed) { (void)p; (void)n; return seed; }
/* std::list helpers */
typedef struct LN_ { struct LN_ *next, *prev; } LN;
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN *t, LN *pos) { t->next = pos; t->prev = pos->prev; pos->prev->next = t; pos->prev = t; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN *t) { t->next->prev = t->prev; t->prev->next = t->next; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN *t, LN *first, LN *last) {
  if (t != last) {
    last->prev->next = t; first->prev->next = last; t->prev->next = first;
    LN *tmp = t->prev; t->prev = last->prev; last->prev = first->prev; first->prev = tmp;
  }
}
/* policy stub: one hash chain, so that every collision happens */
unsigned long long lc_hash_const(const void *p, size_t n) { (void)p; (void)n; return 0; }
unsigned long long lc_hash_id(const void *p, size_t n) { (void)n; return *(const uint64_t *)p; }
