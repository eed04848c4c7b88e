// R03, R04: moving around in a trace agrees with reading it from the start; sampling keeps whole objects or every n-th request.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "include/libCacheSim/reader.h"

#define MAXN 256
static uint64_t E_id[MAXN];
static int64_t E_sz[MAXN];
static int n;
static char *buf;
static long len;
static uint64_t (*hashes)[2];
static int n_hashes;
extern uint64_t (*lc_hash_fn)(const void *key, uint64_t l);
static uint64_t id_hash(const void *key, uint64_t l) {
  uint64_t k = *(const uint64_t *)key;
  (void)l;
  for (int i = 0; i < n_hashes; i++)
    if (hashes[i][0] == k) return hashes[i][1];
  hashes[n_hashes][0] = k;
  return hashes[n_hashes++][1] = lc_range("hash", 1, 6);
}

// a decompressor that follows the streaming contract of libzstd (consumes input, may hold decoded bytes back while
// the output is full) around the identity code: the reader must work for any such stream
typedef struct { char *b; size_t a, e; } zds_t;
typedef struct { const void *src; size_t size, pos; } zin_t;
typedef struct { void *dst; size_t size, pos; } zout_t;
static int zmode;
size_t ZSTD_DStreamInSize(void) { return (size_t)lc_param("zin", 40); }
size_t ZSTD_DStreamOutSize(void) { return (size_t)lc_param("zout", 16); }
void *ZSTD_createDStream(void) { zds_t *z = calloc(1, sizeof *z); z->b = malloc(4096); return z; }
size_t ZSTD_freeDStream(void *p) { zds_t *z = p; free(z->b); free(z); return 0; }
size_t ZSTD_initDStream(void *p) { zds_t *z = p; z->a = z->e = 0; return 1; }
size_t ZSTD_DCtx_reset(void *p, int how) { (void)how; return ZSTD_initDStream(p), 0; }
unsigned ZSTD_isError(size_t r) { return r > (size_t)-100; }
const char *ZSTD_getErrorName(size_t r) { (void)r; return "error"; }
size_t ZSTD_decompressStream(void *p, void *o_, void *i_) {
  zds_t *z = p;
  zout_t *o = o_;
  zin_t *in = i_;
  size_t av = in->size - in->pos, take = zmode == 0 ? av : zmode == 1 ? (av + 1) / 2 : (av < 9 ? av : 9);
  memcpy(z->b + z->e, (const char *)in->src + in->pos, take);
  z->e += take;
  in->pos += take;
  size_t room = o->size - o->pos, hold = z->e - z->a, give = hold < room ? hold : room;
  memcpy((char *)o->dst + o->pos, z->b + z->a, give);
  o->pos += give;
  z->a += give;
  return z->a == z->e ? 0 : 1;
}

static char delim = ',';
static void put(const char *s) {
  for (; *s; s++) buf[len++] = *s == ',' ? delim : *s;
}
static void number(const char *name, uint64_t *v, int digits) {
  *v = 0;
  for (int i = 0; i < digits; i++) {
    int c = '0' + (int)lc_range(name, i == 0 ? 1 : 0, 9);
    buf[len++] = (char)c;
    *v = *v * 10 + (uint64_t)(c - '0');
  }
}
static reader_t *r;
static request_t *q, *q2;
static void expect(reader_t *rd, int i, const char *msg) {
  lc_check(read_one_req(rd, q) == 0, msg);
  lc_check(q->valid, msg);
  lc_check(q->obj_id == E_id[i], msg);
  if (E_sz[i] >= 0) lc_check(q->obj_size == E_sz[i], msg);
}
static void expect_end(reader_t *rd, const char *msg) { lc_check(read_one_req(rd, q) != 0, msg); }

void lc_main(void) {
  const char *kind = lc_sparam("kind", "bin");
  const char *ops = lc_sparam("opset", "rRSbacnFLE");
  int lines = (int)lc_param("lines", 3), steps = (int)lc_param("ops", 4), maxdig = (int)lc_param("digits", 1);
  int64_t cap = lc_param("cap", -1), longline = lc_param("long", 0);
  int bin = !strcmp(kind, "bin"), zst = !strcmp(kind, "zst"), txt = !strcmp(kind, "txt"), csv = !strcmp(kind, "csv"), cnt = !strcmp(kind, "csvcnt"), lcs = !strcmp(kind, "lcs");
  hashes = calloc(MAXN, sizeof *hashes);
  buf = calloc(1, 12000);
  reader_init_param_t ip = default_reader_init_params();
  ip.cap_at_n_req = cap;
  ip.ignore_size_zero_req = false;
  trace_type_e type = ORACLE_GENERAL_TRACE;
  int64_t count[MAXN];
  if (bin || zst || lcs) {
    if (lcs) {
      type = LCS_TRACE;
      *(uint64_t *)buf = 0x123456789abcdef0;
      strcpy(buf + 8, "<IQIq");
      buf[248] = 2; buf[249] = 3; buf[250] = 1;
      *(uint32_t *)(buf + 1000) = 4;
      *(uint32_t *)(buf + 1004) = 24;
      *(uint64_t *)(buf + 1016) = 0x123456789abcdef0;
      len = 1024;
    }
    for (int i = 0; i < lines; i++, len += 24) {
      E_id[i] = lc_sym("id", (int)lc_param("idbits", 64));
      E_sz[i] = lc_param("fixsize", 0) ? 1 + i : (int64_t)lc_sym("size", 32);
      *(uint32_t *)(buf + len) = (uint32_t)i;
      *(uint64_t *)(buf + len + 4) = E_id[i];
      *(uint32_t *)(buf + len + 12) = (uint32_t)E_sz[i];
    }
    n = lines;
    if (zst) zmode = (int)lc_choose("zstd", 3);
  } else {
    type = txt ? PLAIN_TXT_TRACE : CSV_TRACE;
    ip.obj_id_is_num = true;
    ip.has_header_set = true;
    // the delimiter: given, or the reader is to find out; likewise whether there is a header
    delim = "\t|:,;"[lc_param("delim", 3)];
    bool detect = lc_param("detect", 0) && lc_choose("detect", 2);
    ip.delimiter = detect ? 0 : delim;
    ip.has_header_set = !detect;
    ip.time_field = 1; ip.obj_id_field = 2; ip.obj_size_field = 3;
    if (cnt) ip.cnt_field = 4;
    if (!txt) {
      ip.has_header = lc_choose("header", 2);
      if (ip.has_header) put("time,id,size,extra\n");
      if (detect) { ip.has_header = !ip.has_header; lc_cover("detected"); }
    }
    for (int i = 0; i < lines; i++) {
      uint64_t v;
      if (!txt) { number("time", &v, 1); put(","); }
      number("id", &E_id[n], 1 + (int)lc_choose("digits", (uint64_t)maxdig));
      E_sz[n] = -1;
      if (!txt) { put(","); number("size", &v, 1); E_sz[n] = (int64_t)v; }
      n++;
      if (cnt) {
        put(",");
        count[i] = (int64_t)lc_choose("count", 3) + 1;
        buf[len++] = (char)('0' + count[i]);
        for (int k = 1; k < count[i]; k++, n++) { E_id[n] = E_id[n - 1]; E_sz[n] = E_sz[n - 1]; }
      } else if (longline && !txt) {
        put(",");
        for (int64_t k = 0; k < longline; k++) buf[len++] = 'x';
      }
      if (i < lines - 1 || lc_choose("newline", 2)) put("\n");
    }
  }
  const char *path = lc_file(zst ? "trace.zst" : "trace", buf, (size_t)len);
  int every = (int)lc_param("temporal", 0), part = (int)lc_param("spatial", 0);
  if (every) ip.sampler = create_temporal_sampler(1.0 / every);
  if (part) {
    lc_hash_fn = id_hash;
    ip.sampler = create_spatial_sampler(1.0 / part);
  }
  r = setup_reader(path, type, &ip);
  q = new_request();
  if (part) {  // which objects are kept is the sampler's choice, but it must keep all requests of an object or none
    uint64_t got[MAXN];
    int m = 0;
    while (read_one_req(r, q) == 0) {
      lc_check(m < n, "the sampler yields more requests than the trace has");
      got[m++] = q->obj_id;
    }
    int k = 0;
    for (int i = 0; i < n; i++) {
      bool in = false;
      for (int j = 0; j < m; j++) in = in || got[j] == E_id[i];
      lc_cover(in ? "kept" : "dropped");
      if (!in) continue;
      lc_check(k < m && got[k] == E_id[i], "a spatial sampler drops some requests of an object it keeps, or reorders them");
      E_id[k] = E_id[i];
      E_sz[k++] = E_sz[i];
    }
    lc_check(k == m, "a spatial sampler yields requests that are not in the trace");
    n = m;
    reset_reader(r);
  }
  if (every) {
    int k = 0;
    for (int i = every - 1; i < n; i += every) { E_id[k] = E_id[i]; E_sz[k++] = E_sz[i]; }
    n = k;
  }
  if (cap > 0 && cap < n) n = (int)cap;
  int p = 0, reads = 0;
  bool atend = false;
  for (int t = 0; t < steps; t++) {
    char op = ops[lc_choose("op", strlen(ops))];
    switch (op) {
      case 'r':
        if (atend && p == n) { lc_assume(false); }
        if (p < n) {
          expect(r, p, "reading after this history does not yield the next request");
          p++;
          lc_observe("id", q->obj_id);
        } else { expect_end(r, "the reader yields a request after the last one"); lc_cover("end"); }
        break;
      case 'R':
        reset_reader(r);
        p = 0;
        atend = false;
        lc_cover("reset");
        break;
      case 'S': {
        int k = (int)lc_choose("skip", 3) + 1, m = k < n - p ? k : n - p;
        if (atend) lc_assume(false);
        lc_check(skip_n_req(r, k) == m, "the reader skips a wrong number of requests");
        p += m;
        lc_cover("skipped");
        break;
      }
      case 'b':
        if (p > 0) { lc_check(go_back_one_req(r) == 0, "cannot step back to the previous request"); p--; atend = false; lc_cover("back"); }
        else lc_check(go_back_one_req(r) != 0, "stepped back before the first request");
        break;
      case 'a':
        if (p < 2) { lc_check(read_one_req_above(r, q) != 0, "read a request before the first one"); reset_reader(r); p = 0; atend = false; break; }
        lc_check(read_one_req_above(r, q) == 0, "cannot read the request above");
        lc_check(q->obj_id == E_id[p - 2], "reading backwards yields a wrong request");
        p--;
        atend = false;
        lc_cover("above");
        break;
      case 'c': {
        reader_t *c = clone_reader(r);
        int k = (int)lc_choose("clonereads", 3);
        request_t *mine = q;
        q2 = new_request();
        for (int i = 0; i < n; i++) {
          q = q2;
          expect(c, i, "a cloned reader does not yield the whole trace");
          if (i == k && p < n && !atend) { q = mine; expect(r, p, "reading a clone disturbs the original reader"); p++; }
        }
        q = q2;
        expect_end(c, "a cloned reader yields more than the trace");
        free_request(q2);
        q = mine;
        close_reader(c);
        lc_cover("cloned");
        break;
      }
      case 'n':
        lc_check(get_num_of_req(r) == (uint64_t)n, "the number of requests differs from the number that can be read");
        lc_cover("counted");
        break;
      case 'F':
        read_first_req(r, q);
        lc_check(q->obj_id == E_id[0], "the first request of the trace is wrong");
        reset_reader(r);
        p = 0;
        atend = false;
        break;
      case 'L':
        read_last_req(r, q);
        lc_check(q->obj_id == E_id[n - 1], "the last request of the trace is wrong");
        reset_reader(r);
        p = 0;
        atend = false;
        lc_cover("last");
        break;
      case 'E':
        reader_set_read_pos(r, 1.0);
        p = n;
        atend = true;
        break;
    }
    (void)reads;
  }
  if (!atend) {  // the rest of the trace
    for (; p < n; p++) expect(r, p, "the rest of the trace is not what reading from the start yields");
    expect_end(r, "the reader yields a request after the last one");
  }
  close_reader(r);
  free_request(q);
}
