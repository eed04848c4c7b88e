// Program state: registers, copy-on-write memory, path condition.
#pragma once
#include <array>
#include <map>
#include <memory>
#include "solver.h"

struct Val {
  uint64_t c = 0;
  const Expr *e = nullptr;  // null: concrete value c (width <= 64)
  bool conc() const { return !e; }
};

struct Cell { uint32_t off; const Expr *e; };  // symbolic bytes [off, off + e->w/8)

enum ObjKind : uint8_t { KHeap, KStack, KGlobal, KConst };

static const uint32_t PAGE = 4096;
struct Page { uint32_t rc; uint8_t *d; };

// who touched a byte while several threads were running: a bit per thread, with (l) and without holding a lock
struct Touch { uint8_t r, w, lr, lw, mainw; };

struct MemObj {
  uint32_t rc = 1;
  uint32_t epoch = 0;                    // the pool of threads that `touch` is about
  bool tls = false;
  std::map<uint32_t, std::array<Touch, 64>> touch;  // by 64-byte block
  uint32_t size = 0;
  ObjKind kind = KHeap;
  uint8_t *data = nullptr;               // small objects
  std::vector<Page *> pages;             // large objects (nullptr page = all zero)
  std::vector<Cell> cells;               // sorted by off
  uint8_t *uninit = nullptr;             // per byte flag, null = everything initialised
  uint32_t nUninit = 0;
  const char *site = "";
  bool paged() const { return size > 2 * PAGE; }

  static MemObj *make(uint32_t size, ObjKind k, bool uninitd, const char *site) {
    MemObj *o = new MemObj();
    o->size = size;
    o->kind = k;
    o->site = site;
    if (o->paged()) o->pages.assign((size + PAGE - 1) / PAGE, nullptr);
    else o->data = (uint8_t *)calloc(1, size ? size : 1);
    if (uninitd && size && size <= 65536) {
      o->uninit = (uint8_t *)malloc(size);
      memset(o->uninit, 1, size);
      o->nUninit = size;
    }
    return o;
  }
  MemObj *clone() const {
    MemObj *o = new MemObj();
    o->size = size; o->kind = kind; o->site = site; o->cells = cells;
    if (data) { o->data = (uint8_t *)malloc(size ? size : 1); memcpy(o->data, data, size); }
    o->pages = pages;
    o->epoch = epoch; o->tls = tls; o->touch = touch;
    for (auto p : o->pages) if (p) p->rc++;
    if (uninit) { o->uninit = (uint8_t *)malloc(size); memcpy(o->uninit, uninit, size); o->nUninit = nUninit; }
    return o;
  }
  ~MemObj() {
    free(data);
    free(uninit);
    for (auto p : pages) if (p && --p->rc == 0) { free(p->d); delete p; }
  }
  uint8_t rd(uint32_t o) const {
    if (data) return data[o];
    Page *p = pages[o / PAGE];
    return p ? p->d[o % PAGE] : 0;
  }
  void wr(uint32_t o, uint8_t v) {
    if (data) { data[o] = v; return; }
    Page *&p = pages[o / PAGE];
    if (!p) { p = new Page{1, (uint8_t *)calloc(1, PAGE)}; }
    else if (p->rc > 1) { p->rc--; Page *n = new Page{1, (uint8_t *)malloc(PAGE)}; memcpy(n->d, p->d, PAGE); p = n; }
    p->d[o % PAGE] = v;
  }
  void rdN(uint32_t o, uint8_t *dst, uint32_t n) const {
    if (data) { memcpy(dst, data + o, n); return; }
    for (uint32_t i = 0; i < n; i++) dst[i] = rd(o + i);
  }
  void wrN(uint32_t o, const uint8_t *src, uint32_t n) {
    if (data) { memcpy(data + o, src, n); return; }
    for (uint32_t i = 0; i < n; i++) wr(o + i, src[i]);
  }
  void setInit(uint32_t o, uint32_t n) {
    if (!uninit) return;
    for (uint32_t i = o; i < o + n; i++) if (uninit[i]) { uninit[i] = 0; nUninit--; }
    if (!nUninit) { free(uninit); uninit = nullptr; }
  }
  bool anyUninit(uint32_t o, uint32_t n) const {
    if (!uninit) return false;
    for (uint32_t i = o; i < o + n; i++) if (uninit[i]) return true;
    return false;
  }
};

struct Chunk {
  uint32_t rc = 1;
  MemObj *o[64] = {};
};

struct Fn;
struct Frame {
  Fn *fn = nullptr;
  uint32_t pc = 0;
  int32_t retDst = -1;
  uint64_t va = 0;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
};

struct Input { const char *name; const Expr *e; uint64_t lo; unsigned bits; };  // replay value = lo + value(e)
struct Obs { const char *label; Val v; };

// the contents of the thread-local variables of one thread
struct Tls {
  std::vector<MemObj *> o;
  Tls() {}
  Tls(const Tls &t) : o(t.o) { for (auto x : o) x->rc++; }
  Tls &operator=(const Tls &t) {
    for (auto x : t.o) x->rc++;
    clear();
    o = t.o;
    return *this;
  }
  void clear() { for (auto x : o) if (--x->rc == 0) delete x; o.clear(); }
  ~Tls() { clear(); }
};

struct State {
  std::vector<Frame> fr;
  std::vector<Chunk *> mem;
  uint32_t nextObj = 1;
  std::vector<const Expr *> pc;
  Model model;
  std::vector<Input> inputs;
  std::vector<Obs> obs;
  std::vector<std::pair<const Expr *, uint64_t>> conc;
  uint32_t nvars = 0;
  uint64_t steps = 0;
  uint32_t depth = 0;       // forks on this path
  bool expectAbort = false;
  bool usedUninit = false;
  uint32_t epoch = 0;       // > 0: threads of pool number `epoch` may be running
  uint32_t nextEpoch = 1;
  uint32_t thread = 0;      // running thread, 0: the main one
  uint32_t nthreads = 0;
  uint32_t taskNo = 0, pushed = 0;
  std::vector<uint64_t> locks;
  Tls tlsMain;
  std::vector<Tls> tlsOf;   // of each pool thread
  std::vector<uint32_t> uvars;  // variables standing for uninitialised bytes

  State() {}
  State(const State &s) { copyFrom(s); }
  State &operator=(const State &) = delete;
  void copyFrom(const State &s) {
    fr = s.fr; mem = s.mem; nextObj = s.nextObj; pc = s.pc; model = s.model; inputs = s.inputs; obs = s.obs;
    conc = s.conc; nvars = s.nvars; steps = s.steps; depth = s.depth; expectAbort = s.expectAbort; usedUninit = s.usedUninit; uvars = s.uvars;
    epoch = s.epoch; nextEpoch = s.nextEpoch; thread = s.thread; nthreads = s.nthreads; taskNo = s.taskNo; pushed = s.pushed; locks = s.locks; tlsMain = s.tlsMain; tlsOf = s.tlsOf;
    for (auto c : mem) if (c) c->rc++;
  }
  static void dropChunk(Chunk *c) {
    if (c && --c->rc == 0) {
      for (auto o : c->o) if (o && --o->rc == 0) delete o;
      delete c;
    }
  }
  ~State() { for (auto c : mem) dropChunk(c); }

  MemObj *get(uint32_t id) const {
    uint32_t ci = id >> 6;
    if (ci >= mem.size() || !mem[ci]) return nullptr;
    return mem[ci]->o[id & 63];
  }
  Chunk *ownChunk(uint32_t ci) {
    Chunk *&c = mem[ci];
    if (!c) c = new Chunk();
    else if (c->rc > 1) {
      Chunk *n = new Chunk();
      for (int i = 0; i < 64; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; }
      c->rc--;
      c = n;
    }
    return c;
  }
  MemObj *own(uint32_t id) {
    Chunk *c = ownChunk(id >> 6);
    MemObj *&o = c->o[id & 63];
    if (o->rc > 1) { MemObj *n = o->clone(); o->rc--; o = n; }
    return o;
  }
  uint32_t add(MemObj *o) {
    uint32_t id = nextObj++;
    if ((id >> 6) >= mem.size()) mem.resize((id >> 6) + 1, nullptr);
    ownChunk(id >> 6)->o[id & 63] = o;
    return id;
  }
  void drop(uint32_t id) {
    Chunk *c = ownChunk(id >> 6);
    MemObj *&o = c->o[id & 63];
    if (o && --o->rc == 0) delete o;
    o = nullptr;
    bool any = false;
    for (auto x : c->o) if (x) { any = true; break; }
    if (!any && ((id >> 6) + 1) * 64u <= nextObj) { delete c; mem[id >> 6] = nullptr; }
  }
};
static const uint64_t OBJ_BASE = 0x10000;
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OBJ_BASE; }
