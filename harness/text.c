// R02: text and CSV traces: one request per data line, with the configured columns' values.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lc.h"
#include "include/libCacheSim/reader.h"

#define MAXR 24
static uint64_t E_id[MAXR], E_time[MAXR];
static int64_t E_sz[MAXR];
static int n;
static char *buf;
static long len;
static void put(const char *s) { strcpy(buf + len, s); len += strlen(s); }

// a decimal number without leading zeros
static uint64_t number(const char *name, const char *widths) {
  int w = widths[lc_choose("width", strlen(widths))] - 'a' + 1;
  uint64_t v = 0;
  for (int i = 0; i < w; i++) {
    // the first digit of a long number is one of three, so that its magnitude is known
    char c = w > 5 && i == 0 ? (char)('1' + 4 * lc_choose("lead", 3)) : (char)lc_range(name, i == 0 && w > 1 ? '1' : '0', '9');
    buf[len++] = c;
    v = v * 10 + (uint64_t)(c & 15);
  }
  return v;
}
// string ids: equal strings must get equal ids; the hash function is an injective function of the bytes it is given
extern uint64_t (*lc_hash_fn)(const void *key, uint64_t l);
static struct { char s[16]; uint64_t l; } *strs;
static int n_str;
static uint64_t intern(const void *key, uint64_t l) {
  lc_check(l < 16, "a string id longer than the field is hashed");
  for (int i = 0; i < n_str; i++)
    if (strs[i].l == l && memcmp(strs[i].s, key, l) == 0) return (uint64_t)i + 1000;
  memcpy(strs[n_str].s, key, l);
  strs[n_str].l = l;
  return (uint64_t)n_str++ + 1000;
}
// a string field: 1-2 symbolic letters, optionally in quotes with a delimiter, a doubled quote or a space inside; or padded with spaces
static uint64_t text(char delim, int fancy) {
  char want[16];
  int w = 0;
  int form = fancy ? (int)lc_choose("form", 6) : 0;
  if (form == 1) buf[len++] = ' ';
  if (form >= 2) buf[len++] = '"';
  int letters = 1 + (int)lc_choose("letters", 2);
  for (int i = 0; i < letters; i++) {
    char c = (char)lc_range("letter", 'a', 'z');
    want[w++] = buf[len++] = c;
    if (i == 0) {
      if (form == 3) want[w++] = buf[len++] = delim;
      if (form == 4) { buf[len++] = '"'; want[w++] = buf[len++] = '"'; }
      if (form == 5) want[w++] = buf[len++] = ' ';
    }
  }
  if (form == 1) buf[len++] = ' ';
  if (form >= 2) buf[len++] = '"';
  lc_cover(form == 1 ? "padded" : form >= 2 ? "quoted" : "plain");
  return intern(want, (uint64_t)w);
}

void lc_main(void) {
  int txt = lc_param("txt", 0), isnum = (int)lc_param("num", 1), lines = (int)lc_param("lines", 2), fancy = (int)lc_param("fancy", 0), crlf = (int)lc_param("crlf", 0), blanks = (int)lc_param("blanks", 0);
  const char *cols = lc_sparam("cols", "tis");  // t time, i id, s size, c count, x ignored (letters), 0 ignored (empty)
  const char *iw = lc_sparam("idwidth", "ab"), *sw = lc_sparam("sizewidth", "a"), *tw = lc_sparam("timewidth", "a");
  int header = (int)lc_param("header", 2);  // 0 none, 1 present, 2 either; +4: left to detection
  char delim = lc_sparam("delim", ",")[0];
  if (delim == 'T') delim = '\t';
  int detect = (int)lc_param("detect", 0);
  buf = calloc(1, 4096);
  strs = calloc(MAXR, sizeof *strs);
  if (!isnum && !txt) lc_hash_fn = intern;
  reader_init_param_t ip = default_reader_init_params();
  ip.ignore_size_zero_req = lc_choose("ignore_zero", 1 + (lc_param("zero", 0) != 0));
  ip.ignore_obj_size = lc_param("ignoresize", 0);
  ip.obj_id_is_num = isnum;
  int has_size = 0, has_time = 0;
  if (!txt) {
    int hd = (header & 3) == 2 ? (int)lc_choose("header", 2) : (header & 3);
    ip.has_header_set = !(header & 4);
    ip.has_header = hd && ip.has_header_set;
    ip.delimiter = detect ? 0 : delim;
    for (int i = 0; cols[i]; i++) {
      if (cols[i] == 't') ip.time_field = i + 1, has_time = 1;
      if (cols[i] == 'i') ip.obj_id_field = i + 1;
      if (cols[i] == 's') ip.obj_size_field = i + 1, has_size = 1;
      if (cols[i] == 'c') ip.cnt_field = i + 1;
    }
    if (hd) {
      long h = lc_param("longheader", 0);
      for (int i = 0; cols[i]; i++) {
        if (i) buf[len++] = delim;
        put("name");
        while (i == 0 && h > len) buf[len++] = 'z';
      }
      put(crlf ? "\r\n" : "\n");
      lc_cover("header");
    } else
      lc_cover("no header");
  }
  for (int i = 0; i < lines; i++) {
    uint64_t id = 0, tm = 0, sz = 1, cnt = 1;
    char quoted[16];
    if (blanks && i > 0 && lc_choose("blank", 2)) { put("\n"); lc_cover("blank"); }
    if (txt) {
      if (isnum) id = number("id", iw);
      else id = text(',', 0);
    } else
      for (int c = 0; cols[c]; c++) {
        if (c) buf[len++] = delim;
        switch (cols[c]) {
          case 't':
            tm = number("time", tw);
            if (lc_param("fraction", 0) && lc_choose("fraction", 2)) { buf[len++] = '.'; buf[len++] = '5'; }
            break;
          case 'i':
            if (isnum) id = number("id", iw);
            else id = text(delim, fancy);
            break;
          case 's': sz = number("size", sw); break;
          case 'c': cnt = lc_choose("count", 3) + 1; buf[len++] = (char)('0' + cnt); break;
          case 'x': buf[len++] = (char)lc_range("other", 'a', 'z'); break;
          case 'q': put("\"a"); buf[len++] = delim; put("b\""); break;
        }
      }
    (void)quoted;
    long filler = i == 0 ? lc_param("filler", 0) : 0;
    if (filler) { buf[len++] = delim; while (filler--) buf[len++] = '7'; }
    if (i < lines - 1 || lc_choose("newline", 2)) put(crlf ? "\r\n" : "\n");
    if (has_size && sz == 0 && ip.ignore_size_zero_req) { lc_cover("zero size"); continue; }
    for (uint64_t k = 0; k < cnt; k++) {
      E_id[n] = id;
      E_time[n] = tm;
      E_sz[n++] = ip.ignore_obj_size ? 1 : (int64_t)sz;
    }
  }
  if (blanks && lc_choose("blank", 2)) put("\n");
  const char *path = lc_file("trace", buf, (size_t)len);
  reader_t *r = setup_reader(path, txt ? PLAIN_TXT_TRACE : CSV_TRACE, &ip);
  int rounds = 1 + (int)lc_param("again", 0);
  request_t *q = new_request();
  for (int t = 0; t < rounds; t++) {
    uint64_t got[MAXR];
    for (int i = 0; i < n; i++) {
      lc_check(read_one_req(r, q) == 0, "a line of the trace is not read");
      lc_check(q->valid, "a read request is not valid");
      got[i] = q->obj_id;
      if (isnum) lc_check(q->obj_id == E_id[i], "object id differs from the number in the line");
      else {
        for (int j = 0; j < i; j++) lc_check((got[j] == got[i]) == (E_id[j] == E_id[i]), "string ids: equal strings and equal ids do not coincide");
        if (!txt) lc_check(q->obj_id == E_id[i], "string id is not computed from the bytes of the field");
      }
      if (has_time) lc_check(q->clock_time == (int64_t)E_time[i], "time differs from the number in the line");
      if (has_size || ip.ignore_obj_size) lc_check(q->obj_size == E_sz[i], "object size differs from the number in the line");
      if (isnum) lc_observe("id", q->obj_id);
      lc_cover("read");
    }
    lc_check(read_one_req(r, q) != 0, "a request is read after the last line");
    lc_check(!q->valid, "the request read at the end of the trace is marked valid");
    lc_check(read_one_req(r, q) != 0, "a request is read after the end of the trace was reported");
    if (t + 1 < rounds) reset_reader(r);
  }
  close_reader(r);
  free_request(q);
}
