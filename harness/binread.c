// R01: every binary format, arbitrary file contents: one request per complete record, fields as laid out.
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "include/libCacheSim/reader.h"

// the documented layouts: offset and width of each field (width 0: the format does not carry it)
typedef struct {
  const char *name;
  trace_type_e type;
  int item, toff, tw, ioff, iw, soff, sw, noff;
  int skip;  // 0: keeps zero-size records, 1: drops them when so configured, 2: twitter rule (zero-size values of get requests)
  const char *fmt;
} fmt_t;
#define NONE -1
static const fmt_t F[] = {
    {"iii", STANDARD_III_TRACE, 12, 0, 4, 4, 4, 8, 4, NONE, 0, 0},
    {"iqi", STANDARD_IQI_TRACE, 16, 0, 4, 4, 8, 12, 4, NONE, 0, 0},
    {"iqq", STANDARD_IQQ_TRACE, 20, 0, 4, 4, 8, 12, 8, NONE, 0, 0},
    {"iqibh", STANDARD_IQIBH_TRACE, 19, 0, 4, 4, 8, 12, 4, NONE, 0, 0},
    {"valpin", VALPIN_TRACE, 8, 0, 0, 0, 8, 0, 0, NONE, 0, 0},
    {"twr", TWR_TRACE, 20, 0, 4, 4, 8, 0, 0, NONE, 2, 0},
    {"twrns", TWRNS_TRACE, 22, 0, 4, 4, 8, 0, 0, NONE, 2, 0},
    {"cf1", CF1_TRACE, 41, 0, 4, 4, 8, 12, 8, NONE, 1, 0},
    {"akamai", AKAMAI_TRACE, 22, 0, 4, 4, 8, 12, 4, NONE, 1, 0},
    {"wiki16u", WIKI16u_TRACE, 14, 0, 0, 0, 8, 8, 4, NONE, 1, 0},
    {"wiki19u", WIKI19u_TRACE, 18, 0, 4, 4, 8, 12, 4, NONE, 1, 0},
    {"wiki19t", WIKI19t_TRACE, 16, 0, 4, 4, 8, 12, 4, NONE, 1, 0},
    {"oracleGeneral", ORACLE_GENERAL_TRACE, 24, 0, 4, 4, 8, 12, 4, 16, 1, 0},
    {"oracleGeneralOpNS", ORACLE_GENERALOPNS_TRACE, 27, 0, 4, 4, 8, 12, 4, 19, 1, 0},
    {"oracleSimTwrNS", ORACLE_SIM_TWRNS_TRACE, 30, 0, 4, 4, 8, 12, 4, 22, 1, 0},
    {"oracleSysTwrNS", ORACLE_SYS_TWRNS_TRACE, 34, 0, 4, 4, 8, 0, 0, 26, 3, 0},
    {"oracleCF1", ORACLE_CF1_TRACE, 49, 0, 4, 4, 8, 12, 8, 32, 1, 0},
    {"oracleAkamai", ORACLE_AKAMAI_TRACE, 30, 0, 4, 4, 8, 12, 4, 22, 1, 0},
    {"oracleWiki16u", ORACLE_WIKI16u_TRACE, 22, 0, 0, 0, 8, 8, 4, 14, 1, 0},
    {"oracleWiki19u", ORACLE_WIKI19u_TRACE, 26, 0, 4, 4, 8, 12, 4, 18, 1, 0},
    {"vscsi1", VSCSI_TRACE, 32, 24, 8, 16, 8, 4, 4, NONE, 0, 0},
    {"vscsi2", VSCSI_TRACE, 40, 24, 8, 16, 8, 8, 4, NONE, 0, 0},
    {"bin", BIN_TRACE, 0, 0, 0, 0, 0, 0, 0, NONE, 0, 0},
    {"lcs", LCS_TRACE, 0, 0, 0, 0, 0, 0, 0, NONE, 0, 0},
};
static uint64_t le(const uint8_t *p, int w) {
  uint64_t v = 0;
  for (int i = w - 1; i >= 0; i--) v = v << 8 | p[i];
  return v;
}
static int width(char c) { return strchr("cbB", c) ? 1 : strchr("hH", c) ? 2 : strchr("iIlL", c) ? 4 : 8; }
// a field of a format string, as Python's struct module reads it
static int64_t field(const uint8_t *p, const char *fmt, int idx) {
  int off = 0;
  for (int i = 0; i < idx - 1; i++) off += width(fmt[i]);
  char c = fmt[idx - 1];
  int w = width(c);
  uint64_t v = le(p + off, w);
  if (strchr("cbhilq", c) && w < 8) return (int64_t)(v << (64 - 8 * w)) >> (64 - 8 * w);
  return (int64_t)v;
}

void lc_main(void) {
  const char *name = lc_sparam("fmt", "oracleGeneral");
  int nrec = (int)lc_param("nrec", 2), extra = (int)lc_param("extra", 0);
  int start = (int)lc_param("start", 0);
  const fmt_t *f = 0;
  for (unsigned i = 0; i < sizeof F / sizeof *F; i++)
    if (strcmp(F[i].name, name) == 0) f = &F[i];
  const char *fs = lc_sparam("fs", "IQIq");  // fields of the generic format: time, id, size, next access by parameter
  int ti = (int)lc_param("time", 1), ii = (int)lc_param("id", 2), si = (int)lc_param("size", 3), ni = (int)lc_param("next", 0);
  int gen = f->type == BIN_TRACE || f->type == LCS_TRACE;
  int item = f->item;
  if (gen)
    for (int i = item = 0; fs[i]; i++) item += width(fs[i]);
  int head = f->type == LCS_TRACE ? 1024 : start;
  long n = head + (long)nrec * item + extra;
  uint8_t *b = calloc(1, n + 1);
  if (f->type == LCS_TRACE) {
    *(uint64_t *)b = 0x123456789abcdef0;
    b[8] = '<';
    strcpy((char *)b + 9, fs);
    b[248] = ii; b[249] = si; b[250] = ti; b[252] = ni;
    *(uint32_t *)(b + 1000) = strlen(fs);
    *(uint32_t *)(b + 1004) = item;
    *(uint64_t *)(b + 1016) = 0x123456789abcdef0;
  } else if (start)
    lc_bytes(b, head, "header");
  lc_bytes(b + head, n - head, "byte");
  uint8_t *rec = b + head;
  if (f->type == VSCSI_TRACE) {
    int two = item == 40;
    for (int i = 0; i < nrec; i++) lc_assume(rec[i * item + (two ? 3 : 15)] == (two ? 2 : 1));  // the version is stored in every record
    if (!two) lc_assume(!(rec[3] == 2 && rec[43] == 2));
  }
  const char *path = lc_file("trace", b, n);
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = lc_choose("ignore_zero", 2);
  ip.ignore_obj_size = lc_param("ignoresize", 0);
  ip.trace_start_offset = start;
  char fb[32] = "<";
  strcat(fb, fs);
  if (f->type == BIN_TRACE) { ip.binary_fmt_str = fb; ip.time_field = ti; ip.obj_id_field = ii; ip.obj_size_field = si; ip.next_access_vtime_field = ni; }
  int nullp = (int)lc_param("noparams", 0);
  if (nullp) ip.ignore_size_zero_req = true;
  reader_t *r = setup_reader(path, f->type, nullp ? NULL : &ip);
  request_t *q = new_request();
  for (int i = 0; i < nrec; i++) {
    const uint8_t *p = rec + i * item;
    uint64_t id, tm = 0;
    int64_t sz = 1, nx = -2;
    bool skip = false;
    if (gen) {
      id = field(p, fs, ii);
      tm = ti ? field(p, fs, ti) : 0;
      sz = si ? field(p, fs, si) : 1;
      if (ni) nx = field(p, fs, ni);
    } else {
      id = le(p + f->ioff, f->iw);
      tm = le(p + f->toff, f->tw);
      if (f->sw) sz = (int64_t)le(p + f->soff, f->sw);
      if (f->noff >= 0) {
        nx = (int64_t)le(p + f->noff, 8);
        if (nx == -1) nx = INT64_MAX;  // never requested again
      }
      if (f->type == VSCSI_TRACE) tm /= 1000000;
      if (f->skip == 1) skip = sz == 0;
      if (f->skip == 2) {
        uint64_t kv = le(p + 12, 4), ot = le(p + 16, 4);
        sz = (int64_t)((kv >> 22) + (kv & 0x3fffff));
        skip = (kv & 0x3fffff) == 0 && (ot >> 24 == 1 || ot >> 24 == 2);
      }
      if (f->skip == 3) {
        uint64_t k = le(p + 12, 2), v = le(p + 14, 4), op = le(p + 18, 2);
        sz = (int64_t)(k + v);
        skip = v == 0 && (op == 1 || op == 2);
      }
    }
    if (skip && ip.ignore_size_zero_req) { lc_cover("skipped"); continue; }
    if (ip.ignore_obj_size) sz = 1;
    lc_check(read_one_req(r, q) == 0, "a complete record is not read");
    lc_check(q->valid, "a read request is not valid");
    lc_check(q->obj_id == id, "object id differs from the record's field");
    if (gen ? ti != 0 : f->tw != 0) lc_check(q->clock_time == (int64_t)tm, "time differs from the record's field");
    lc_check(q->obj_size == sz, "object size differs from the record's field");
    if (nx != -2) lc_check(q->next_access_vtime == nx, "next access time differs from the record's field");
    lc_observe("id", q->obj_id);
    lc_observe("size", (uint64_t)q->obj_size);
    lc_cover("read");
  }
  lc_check(read_one_req(r, q) != 0, "a request is read beyond the last complete record");
  lc_check(!q->valid, "the request read at the end of the trace is marked valid");
  close_reader(r);
  free_request(q);
}
