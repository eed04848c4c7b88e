// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;

enum EKind : uint8_t {
  EConst, EVar, EAdd, ESub, EMul, EUDiv, ESDiv, EURem, ESRem, EAnd, EOr, EXor,
  EShl, ELShr, EAShr, EEq, EUlt, EUle, ESlt, ESle, EIte, EConcat, EExtract, EZExt, ESExt
};

struct VarSet {  // sorted unique variable ids
  std::vector<uint32_t> v;
};

struct Expr {
  EKind k;
  uint16_t w;
  uint32_t id;
  uint32_t aux;            // extract low bit / var index
  const Expr *a, *b, *c;
  uint64_t lo, hi;         // constant value
  u128 umx = 0, umn = 0;   // cheap bounds of the unsigned value
  const VarSet *vars;
  // scratch for evaluation
  mutable uint64_t epoch = 0;
  mutable u128 val = 0;
  bool isConst() const { return k == EConst; }
  u128 cv() const { return ((u128)hi << 64) | lo; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (__int128)((v ^ m) - m);
}

struct ExprPool {
  std::vector<Expr *> table;  // open addressing
  size_t count = 0;
  std::vector<Expr *> all;
  VarSet empty;
  ExprPool() { table.resize(1 << 16, nullptr); }

  static uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
  }
  static uint64_t hashOf(EKind k, unsigned w, uint32_t aux, const Expr *a, const Expr *b, const Expr *c, uint64_t lo, uint64_t hi) {
    uint64_t h = k * 1315423911u + w;
    h = mix(h, aux);
    h = mix(h, a ? a->id + 1 : 0);
    h = mix(h, b ? b->id + 1 : 0);
    h = mix(h, c ? c->id + 1 : 0);
    h = mix(h, lo);
    h = mix(h, hi);
    return h;
  }
  void grow() {
    std::vector<Expr *> n(table.size() * 2, nullptr);
    for (Expr *e : all) {
      uint64_t h = hashOf(e->k, e->w, e->aux, e->a, e->b, e->c, e->lo, e->hi) & (n.size() - 1);
      while (n[h]) h = (h + 1) & (n.size() - 1);
      n[h] = e;
    }
    table.swap(n);
  }
  const VarSet *unite(const VarSet *x, const VarSet *y) {
    if (x == y || y->v.empty()) return x;
    if (x->v.empty()) return y;
    // subset tests keep sharing high
    VarSet r;
    size_t i = 0, j = 0;
    while (i < x->v.size() || j < y->v.size()) {
      if (j >= y->v.size() || (i < x->v.size() && x->v[i] < y->v[j])) r.v.push_back(x->v[i++]);
      else if (i >= x->v.size() || y->v[j] < x->v[i]) r.v.push_back(y->v[j++]);
      else { r.v.push_back(x->v[i]); i++; j++; }
    }
    if (r.v.size() == x->v.size()) return x;
    if (r.v.size() == y->v.size()) return y;
    return new VarSet(std::move(r));
  }
  const Expr *intern(EKind k, unsigned w, uint32_t aux, const Expr *a, const Expr *b, const Expr *c, uint64_t lo, uint64_t hi) {
    uint64_t m = table.size() - 1;
    uint64_t h = hashOf(k, w, aux, a, b, c, lo, hi) & m;
    while (table[h]) {
      Expr *e = table[h];
      if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e;
      h = (h + 1) & m;
    }
    Expr *e = new Expr();
    e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi;
    e->id = all.size();
    const VarSet *vs = &empty;
    if (k == EVar) { VarSet *n = new VarSet(); n->v.push_back(aux); vs = n; }
    if (a) vs = unite(vs, a->vars);
    if (b) vs = unite(vs, b->vars);
    if (c) vs = unite(vs, c->vars);
    e->vars = vs;
    e->umx = umaxOf(e);
    e->umn = uminOf(e);
    all.push_back(e);
    table[h] = e;
    if (++count * 2 > table.size()) grow();
    return e;
  }

  const Expr *con(u128 v, unsigned w) {
    v &= maskw(w);
    return intern(EConst, w, 0, nullptr, nullptr, nullptr, (uint64_t)v, (uint64_t)(v >> 64));
  }
  const Expr *var(uint32_t idx, unsigned w) { return intern(EVar, w, idx, nullptr, nullptr, nullptr, 0, 0); }
  const Expr *tru() { return con(1, 1); }
  const Expr *fls() { return con(0, 1); }
  const Expr *mk(EKind k, unsigned w, const Expr *a, const Expr *b = nullptr, const Expr *c = nullptr, uint32_t aux = 0) {
    return intern(k, w, aux, a, b, c, 0, 0);
  }

  static u128 fold(EKind k, unsigned w, u128 a, u128 b) {  // w = operand width
    u128 m = maskw(w);
    switch (k) {
      case EAdd: return (a + b) & m;
      case ESub: return (a - b) & m;
      case EMul: return (a * b) & m;
      case EUDiv: return b == 0 ? m : a / b;
      case EURem: return b == 0 ? a : a % b;
      case ESDiv: { __int128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
      case ESRem: { __int128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case EAnd: return a & b;
      case EOr: return a | b;
      case EXor: return a ^ b;
      case EShl: return b >= w ? 0 : (a << (unsigned)b) & m;
      case ELShr: return b >= w ? 0 : a >> (unsigned)b;
      case EAShr: { __int128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
      case EEq: return a == b;
      case EUlt: return a < b;
      case EUle: return a <= b;
      case ESlt: return sextw(a, w) < sextw(b, w);
      case ESle: return sextw(a, w) <= sextw(b, w);
      default: abort();
    }
  }
  static bool isCmp(EKind k) { return k >= EEq && k <= ESle; }
  static bool comm(EKind k) { return k == EAdd || k == EMul || k == EAnd || k == EOr || k == EXor || k == EEq; }

  const Expr *lnot(const Expr *e) {  // boolean not, width 1
    if (e->isConst()) return con(!e->lo, 1);
    return bin(EXor, e, tru());
  }
  static u128 umax(const Expr *e) { return e->umx; }
  static u128 umaxOf(const Expr *e) {
    switch (e->k) {
      case EConst: return e->cv();
      case EZExt: return umax(e->a);
      case EAnd: { u128 x = umax(e->a), y = umax(e->b); return x < y ? x : y; }
      case EIte: { u128 x = umax(e->b), y = umax(e->c); return x > y ? x : y; }
      case EAdd: { u128 x = umax(e->a), y = umax(e->b); if (e->w < 127 && x + y <= maskw(e->w)) return x + y; return maskw(e->w); }
      case EMul: { u128 x = umax(e->a), y = umax(e->b); if (e->w <= 64 && x * y <= maskw(e->w)) return x * y; return maskw(e->w); }
      case EShl: if (e->w <= 64 && e->b->isConst() && e->b->lo < 64) { u128 x = umax(e->a) << (unsigned)e->b->lo; if (x <= maskw(e->w)) return x; } return maskw(e->w);
      case ELShr: if (e->b->isConst() && e->b->lo < 128) return umax(e->a) >> (unsigned)e->b->lo; return maskw(e->w);
      case EURem: if (e->b->isConst() && e->b->lo) return e->b->cv() - 1; return maskw(e->w);
      case EUDiv: if (e->b->isConst() && e->b->lo) return umax(e->a) / e->b->cv(); return maskw(e->w);
      case EConcat: { if (e->w > 120) return maskw(e->w); return (umax(e->a) << e->b->w) | maskw(e->b->w); }
      default: return maskw(e->w);
    }
  }

  static u128 uminOf(const Expr *e) {
    switch (e->k) {
      case EConst: return e->cv();
      case EZExt: return e->a->umn;
      case EIte: return e->b->umn < e->c->umn ? e->b->umn : e->c->umn;
      case EAdd: if (e->w <= 64 && umax(e->a) + umax(e->b) <= maskw(e->w)) return e->a->umn + e->b->umn; return 0;
      case EMul: if (e->w <= 64 && umax(e->a) * umax(e->b) <= maskw(e->w)) return e->a->umn * e->b->umn; return 0;
      case EShl: if (e->w <= 64 && e->b->isConst() && e->b->lo < 64 && (umax(e->a) << (unsigned)e->b->lo) <= maskw(e->w)) return e->a->umn << (unsigned)e->b->lo; return 0;
      case EConcat: if (e->w > 120) return 0; return (e->a->umn << e->b->w) | e->b->umn;
      default: return 0;
    }
  }

  const Expr *bin(EKind k, const Expr *a, const Expr *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "expr width mismatch k=%d %u %u\n", k, a->w, b->w); abort(); }
    if (a->isConst() && b->isConst()) return con(fold(k, w, a->cv(), b->cv()), isCmp(k) ? 1 : w);
    if (comm(k)) {
      if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);  // const on the right
    }
    bool bc = b->isConst();
    u128 bv = bc ? b->cv() : 0;
    u128 m = maskw(w);
    switch (k) {
      case EAdd:
        if (bc && bv == 0) return a;
        if (bc && a->k == EAdd && a->b->isConst()) return bin(EAdd, a->a, con(a->b->cv() + bv, w));
        // (x - y) + y
        if (a->k == ESub && a->b == b) return a->a;
        if (b->k == ESub && b->b == a) return b->a;
        if (!bc && b->k == EAdd && b->b->isConst()) return bin(EAdd, bin(EAdd, a, b->a), b->b);
        if (!bc && a->k == EAdd && a->b->isConst()) return bin(EAdd, bin(EAdd, a->a, b), a->b);
        break;
      case ESub:
        if (bc) return bin(EAdd, a, con((u128)0 - bv, w));
        if (a == b) return con(0, w);
        if (a->k == EAdd && a->b == b) return a->a;
        if (a->k == EAdd && a->a == b) return a->b;
        // (p + q + c) - q
        if (a->k == EAdd && a->b->isConst() && a->a->k == EAdd) {
          if (a->a->a == b) return bin(EAdd, a->a->b, a->b);
          if (a->a->b == b) return bin(EAdd, a->a->a, a->b);
        }
        break;
      case EMul:
        if (bc && bv == 0) return b;
        if (bc && bv == 1) return a;
        if (bc && (bv & (bv - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != bv) s++; return bin(EShl, a, con(s, w)); }
        break;
      case EUDiv:
        if (bc && bv == 1) return a;
        if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != bv) s++; return bin(ELShr, a, con(s, w)); }
        if (bc && bv && a->k == EZExt && bv <= maskw(a->a->w)) return zext(bin(EUDiv, a->a, con(bv, a->a->w)), w);
        break;
      case EURem:
        if (bc && bv == 1) return con(0, w);
        if (bc && bv && (bv & (bv - 1)) == 0) return bin(EAnd, a, con(bv - 1, w));
        if (bc && bv && umax(a) < bv) return a;
        if (bc && bv && a->k == EZExt && bv <= maskw(a->a->w)) return zext(bin(EURem, a->a, con(bv, a->a->w)), w);
        break;
      case ESDiv: case ESRem:
        if (bc && sextw(bv, w) > 0 && umax(a) < ((u128)1 << (w - 1))) return bin(k == ESDiv ? EUDiv : EURem, a, b);
        break;
      case EAnd:
        if (bc && bv == 0) return b;
        if (bc && bv == m) return a;
        if (a == b) return a;
        if (bc && a->k == EAnd && a->b->isConst()) return bin(EAnd, a->a, con(a->b->cv() & bv, w));
        if (bc && (bv & (bv + 1)) == 0) {  // low mask
          unsigned n = 0; while (((u128)1 << n) <= bv && n < w) n++;
          if (umax(a) <= bv) return a;
          if (n < w) return zext(extract(a, 0, n), w);
        }
        if (w == 1) {
          if (isNotOf(a, b)) return fls();
          if (b->k == EAnd && (b->a == a || b->b == a)) return b;
          if (a->k == EAnd && (a->a == b || a->b == b)) return a;
        }
        break;
      case EOr:
        if (bc && bv == 0) return a;
        if (bc && bv == m) return b;
        if (a == b) return a;
        if (w == 1 && isNotOf(a, b)) return tru();
        break;
      case EXor:
        if (bc && bv == 0) return a;
        if (a == b) return con(0, w);
        if (bc && a->k == EXor && a->b->isConst()) return bin(EXor, a->a, con(a->b->cv() ^ bv, w));
        if (bc && w == 1) {  // not
          if (a->k == EUlt) return bin(EUle, a->b, a->a);
          if (a->k == EUle) return bin(EUlt, a->b, a->a);
          if (a->k == ESlt) return bin(ESle, a->b, a->a);
          if (a->k == ESle) return bin(ESlt, a->b, a->a);
        }
        break;
      case EShl:
        if (bc && bv == 0) return a;
        if (bc && bv >= w) return con(0, w);
        if (bc && a->k == EShl && a->b->isConst()) return bin(EShl, a->a, con(a->b->cv() + bv, w));
        break;
      case ELShr:
        if (bc && bv == 0) return a;
        if (bc && bv >= w) return con(0, w);
        if (bc && (umax(a) >> (unsigned)bv) == 0) return con(0, w);
        if (bc) return zext(extract(a, (unsigned)bv, w - (unsigned)bv), w);
        break;
      case EAShr:
        if (bc && bv == 0) return a;
        if (umax(a) < ((u128)1 << (w - 1))) return bin(ELShr, a, b);
        break;
      case EEq:
        if (a == b) return tru();
        if (w == 1 && bc) return bv ? a : lnot(a);
        if (bc) {
          if (a->k == EZExt) {
            if (bv > maskw(a->a->w)) return fls();
            return bin(EEq, a->a, con(bv, a->a->w));
          }
          if (a->k == ESExt) {
            u128 t = bv & maskw(a->a->w);
            if (((u128)sextw(t, a->a->w) & m) != bv) return fls();
            return bin(EEq, a->a, con(t, a->a->w));
          }
          if (a->k == EAdd && a->b->isConst()) return bin(EEq, a->a, con(bv - a->b->cv(), w));
          if (a->k == EXor && a->b->isConst()) return bin(EEq, a->a, con(bv ^ a->b->cv(), w));
          if (a->k == ESub && bv == 0) return bin(EEq, a->a, a->b);
          if (a->k == EIte) {
            if (a->b->isConst() && a->c->isConst()) {
              bool x = a->b->cv() == bv, y = a->c->cv() == bv;
              if (x && y) return tru();
              if (!x && !y) return fls();
              return x ? a->a : lnot(a->a);
            }
            if (a->b->isConst()) { if (a->b->cv() == bv) return bin(EOr, a->a, bin(EEq, a->c, b)); return bin(EAnd, lnot(a->a), bin(EEq, a->c, b)); }
            if (a->c->isConst()) { if (a->c->cv() == bv) return bin(EOr, lnot(a->a), bin(EEq, a->b, b)); return bin(EAnd, a->a, bin(EEq, a->b, b)); }
          }
          if (a->k == EConcat) {
            unsigned lw = a->b->w;
            return bin(EAnd, bin(EEq, a->b, con(bv, lw)), bin(EEq, a->a, con(bv >> lw, a->a->w)));
          }
          if (bv > umax(a) || bv < a->umn) return fls();
        }
        if (a->k == EZExt && b->k == EZExt && a->a->w == b->a->w) return bin(EEq, a->a, b->a);
        if (a->k == EAdd && b->k == EAdd) {
          if (a->b == b->b) return bin(EEq, a->a, b->a);
          if (a->a == b->a) return bin(EEq, a->b, b->b);
          if (a->a == b->b) return bin(EEq, a->b, b->a);
          if (a->b == b->a) return bin(EEq, a->a, b->b);
        }
        if (a->k == EAdd && (a->a == b || a->b == b)) return bin(EEq, a->a == b ? a->b : a->a, con(0, w));
        if (b->k == EAdd && (b->a == a || b->b == a)) return bin(EEq, b->a == a ? b->b : b->a, con(0, w));
        break;
      case EUlt:
        if (a == b) return fls();
        if (bc && bv == 0) return fls();
        if (bc && bv == 1) return bin(EEq, a, con(0, w));
        if (umax(a) < b->umn) return tru();
        if (a->umn >= umax(b)) return fls();
        if (a->isConst() && a->cv() == m) return fls();
        if (a->isConst() && umax(b) <= a->cv()) return fls();
        if (a->k == EZExt && b->k == EZExt) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return bin(EUlt, zext(a->a, n), zext(b->a, n)); }
        if (bc && a->k == EZExt && bv <= maskw(a->a->w)) return bin(EUlt, a->a, con(bv, a->a->w));
        if (a->isConst() && b->k == EZExt && a->cv() <= maskw(b->a->w)) return bin(EUlt, con(a->cv(), b->a->w), b->a);
        break;
      case EUle:
        if (a == b) return tru();
        if (bc && bv == m) return tru();
        if (umax(a) <= b->umn) return tru();
        if (a->umn > umax(b)) return fls();
        if (a->isConst() && a->cv() == 0) return tru();
        if (a->isConst() && a->cv() > umax(b)) return fls();
        if (a->k == EZExt && b->k == EZExt) { unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w; return bin(EUle, zext(a->a, n), zext(b->a, n)); }
        if (bc && a->k == EZExt && bv <= maskw(a->a->w)) return bin(EUle, a->a, con(bv, a->a->w));
        if (a->isConst() && b->k == EZExt && a->cv() <= maskw(b->a->w)) return bin(EUle, con(a->cv(), b->a->w), b->a);
        break;
      case ESlt: case ESle: {
        if (a == b) return con(k == ESle, 1);
        u128 half = (u128)1 << (w - 1);
        bool an = umax(a) < half, bn = umax(b) < half;
        if (w > 1 && an && bn) return bin(k == ESlt ? EUlt : EUle, a, b);
        if (w > 1 && an && bc && sextw(bv, w) < 0) return fls();
        if (w > 1 && bn && a->isConst() && sextw(a->cv(), w) < 0) return tru();
        break;
      }
      default: break;
    }
    return mk(k, isCmp(k) ? 1 : w, a, b);
  }
  bool isNotOf(const Expr *a, const Expr *b) { return lnot_peek(a) == b || lnot_peek(b) == a; }
  const Expr *lnot_peek(const Expr *a) { return (a->k == EXor && a->w == 1 && a->b->isConst()) ? a->a : nullptr; }

  const Expr *zext(const Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) abort();
    if (a->isConst()) return con(a->cv(), w);
    if (a->k == EZExt) return zext(a->a, w);
    return mk(EZExt, w, a);
  }
  const Expr *sext(const Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return con((u128)sextw(a->cv(), a->w), w);
    if (a->k == EZExt) return zext(a->a, w);
    if (a->w > 1 && umax(a) < ((u128)1 << (a->w - 1))) return zext(a, w);
    if (a->k == ESExt) return sext(a->a, w);
    return mk(ESExt, w, a);
  }
  const Expr *extract(const Expr *a, unsigned low, unsigned w) {
    if (low == 0 && w == a->w) return a;
    if (low + w > a->w) abort();
    if (a->isConst()) return con(a->cv() >> low, w);
    if (a->k == EExtract) return extract(a->a, a->aux + low, w);
    if (a->k == EConcat) {
      unsigned lw = a->b->w;
      if (low + w <= lw) return extract(a->b, low, w);
      if (low >= lw) return extract(a->a, low - lw, w);
      return concat(extract(a->a, 0, low + w - lw), extract(a->b, low, lw - low));
    }
    if (a->k == EZExt) {
      unsigned iw = a->a->w;
      if (low >= iw) return con(0, w);
      if (low + w <= iw) return extract(a->a, low, w);
      return zext(extract(a->a, low, iw - low), w);
    }
    if (a->k == ESExt && low + w <= a->a->w) return extract(a->a, low, w);
    if (a->k == EIte && (a->b->isConst() || a->c->isConst())) return ite(a->a, extract(a->b, low, w), extract(a->c, low, w));
    if (a->k == EAnd || a->k == EOr || a->k == EXor) return bin(a->k, extract(a->a, low, w), extract(a->b, low, w));
    if (low == 0 && (a->k == EAdd || a->k == ESub || a->k == EMul)) {
      return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
    }
    if (a->k == EShl && a->b->isConst()) {
      unsigned s = (unsigned)a->b->cv();
      if (low + w <= s) return con(0, w);
      if (low >= s) return extract(a->a, low - s, w);
      return concat(extract(a->a, 0, low + w - s), con(0, s - low));
    }
    return mk(EExtract, w, a, nullptr, nullptr, low);
  }
  const Expr *concat(const Expr *h, const Expr *l) {  // h:l
    unsigned w = h->w + l->w;
    if (h->isConst() && l->isConst()) return con((h->cv() << l->w) | l->cv(), w);
    if (h->isConst() && h->cv() == 0) return zext(l, w);
    if (h->k == EExtract && l->k == EExtract && h->a == l->a && h->aux == l->aux + l->w) return extract(h->a, l->aux, w);
    // low part covers all of a narrower value, high part is the rest
    if (h->k == EExtract && h->a == l && h->aux == l->w) return l;  // unreachable in practice
    if (h->k == EExtract && l->w == h->aux && h->a->k != EConst) {
      if (l == extract(h->a, 0, l->w)) return extract(h->a, 0, w);
    }
    if (l->k == EConcat && h->k == EExtract && l->a->k == EExtract && h->a == l->a->a && h->aux == l->a->aux + l->a->w)
      return concat(extract(h->a, l->a->aux, h->w + l->a->w), l->b);
    // zext(x) pieces: concat(0.., ..) handled above; concat(zext(e), l)
    if (h->k == EZExt) return zext(concat(h->a, l), w);
    return mk(EConcat, w, h, l);
  }
  const Expr *ite(const Expr *c, const Expr *t, const Expr *f) {
    if (c->isConst()) return c->lo ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
      if (t->isConst() && f->isConst()) return t->lo ? c : lnot(c);
      if (t->isConst()) return t->lo ? bin(EOr, c, f) : bin(EAnd, lnot(c), f);
      if (f->isConst()) return f->lo ? bin(EOr, lnot(c), t) : bin(EAnd, c, t);
    }
    if (c->k == EXor && c->b->isConst()) return ite(c->a, f, t);
    if (t->k == EIte && t->a == c) return ite(c, t->b, f);
    if (f->k == EIte && f->a == c) return ite(c, t, f->c);
    if (t->k == EZExt && f->k == EZExt && t->a->w == f->a->w) return zext(ite(c, t->a, f->a), t->w);
    return mk(EIte, t->w, c, t, f);
  }

  uint64_t epoch = 0;
  u128 eval(const Expr *e, const std::vector<uint64_t> &model) {
    epoch++;
    return ev(e, model);
  }
  u128 ev(const Expr *e, const std::vector<uint64_t> &m) {
    if (e->k == EConst) return e->cv();
    if (e->k == EVar) return e->aux < m.size() ? (m[e->aux] & maskw(e->w)) : 0;
    if (e->epoch == epoch) return e->val;
    u128 r;
    switch (e->k) {
      case EIte: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
      case EConcat: { u128 h = ev(e->a, m), l = ev(e->b, m); r = (h << e->b->w) | l; break; }
      case EExtract: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
      case EZExt: r = ev(e->a, m); break;
      case ESExt: r = (u128)sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
      default: { u128 x = ev(e->a, m), y = ev(e->b, m); r = fold(e->k, e->a->w, x, y); }
    }
    e->epoch = epoch;
    e->val = r;
    return r;
  }
  std::string str(const Expr *e, int depth = 6) {
    static const char *nm[] = {"c", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "++", "ext", "zx", "sx"};
    if (e->isConst()) return std::to_string((unsigned long long)e->lo);
    if (e->k == EVar) return "v" + std::to_string(e->aux);
    if (depth == 0) return "..";
    std::string r = std::string("(") + nm[e->k];
    if (e->k == EExtract) r += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    if (e->a) r += " " + str(e->a, depth - 1);
    if (e->b) r += " " + str(e->b, depth - 1);
    if (e->c) r += " " + str(e->c, depth - 1);
    return r + ")";
  }
};
