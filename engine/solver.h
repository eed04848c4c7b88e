// Solver front end: constraint slicing, model reuse, query cache, Z3 with per-constraint assumption literals.
#pragma once
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <map>
#include "expr.h"

enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
typedef std::vector<uint64_t> Model;

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, unknowns = 0;
  double z3time = 0;
};

struct Solver {
  ExprPool &P;
  SolverStats st;
  Z3_context ctx = nullptr;
  Z3_solver sol = nullptr;
  std::vector<Z3_ast> tr;     // translation per expr id
  std::vector<Z3_ast> lit;    // assumption literal per expr id
  size_t asserted = 0;
  unsigned timeoutMs = 30000;
  struct VecHash {
    size_t operator()(const std::vector<uint32_t> &v) const {
      uint64_t h = v.size();
      for (auto x : v) h = ExprPool::mix(h, x);
      return h;
    }
  };
  struct Entry { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> m; };
  std::unordered_map<std::vector<uint32_t>, Entry, VecHash> cache;

  explicit Solver(ExprPool &p) : P(p) { reset(); }

  void reset() {
    if (ctx) { Z3_solver_dec_ref(ctx, sol); Z3_del_context(ctx); }
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    sol = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, sol);
    Z3_params pa = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, pa);
    Z3_params_set_uint(ctx, pa, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, sol, pa);
    Z3_params_dec_ref(ctx, pa);
    tr.clear();
    lit.clear();
    asserted = 0;
  }
  Z3_ast keep(uint32_t id, Z3_ast a) {
    Z3_inc_ref(ctx, a);
    if (tr.size() <= id) tr.resize(id + 1024, nullptr);
    tr[id] = a;
    return a;
  }
  Z3_ast b2v(Z3_ast b) {  // bool -> bv1
    Z3_sort s1 = bvs(1);
    Z3_ast one = R(Z3_mk_unsigned_int64(ctx, 1, s1)), zero = R(Z3_mk_unsigned_int64(ctx, 0, s1));
    return R(Z3_mk_ite(ctx, b, one, zero));
  }
  // temporaries are kept alive explicitly (reference-counted context)
  Z3_ast R(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_sort bvs(unsigned w) { Z3_sort s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); return s; }
  bool isBool(const Expr *e) { return e->w == 1; }
  // width-1 expressions are translated as Z3 Bool, others as bit-vectors
  Z3_ast bvOf(const Expr *e) { Z3_ast a = T(e); return isBool(e) ? b2v(a) : a; }
  Z3_ast T(const Expr *e) {
    if (e->id < tr.size() && tr[e->id]) return tr[e->id];
    Z3_ast r = nullptr;
    if (e->w == 1) {
      switch (e->k) {
        case EConst: r = e->lo ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case EVar: { std::string n = "b" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx)); break; }
        case EAnd: case EMul: { Z3_ast x[2] = {T(e->a), T(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case EOr: { Z3_ast x[2] = {T(e->a), T(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case EXor: case EAdd: case ESub: if (e->b->isConst()) r = e->b->lo ? Z3_mk_not(ctx, T(e->a)) : T(e->a); else r = Z3_mk_xor(ctx, T(e->a), T(e->b)); break;
        case EEq: if (isBool(e->a)) r = Z3_mk_iff(ctx, T(e->a), T(e->b)); else r = Z3_mk_eq(ctx, T(e->a), T(e->b)); break;
        case EUlt: r = Z3_mk_bvult(ctx, bvOf(e->a), bvOf(e->b)); break;
        case EUle: r = Z3_mk_bvule(ctx, bvOf(e->a), bvOf(e->b)); break;
        case ESlt: r = Z3_mk_bvslt(ctx, bvOf(e->a), bvOf(e->b)); break;
        case ESle: r = Z3_mk_bvsle(ctx, bvOf(e->a), bvOf(e->b)); break;
        case EIte: r = Z3_mk_ite(ctx, T(e->a), T(e->b), T(e->c)); break;
        case EExtract: {
          Z3_ast x = R(Z3_mk_extract(ctx, e->aux, e->aux, bvOf(e->a)));
          Z3_ast one = R(Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
          r = Z3_mk_eq(ctx, x, one);
          break;
        }
        default: fprintf(stderr, "T: kind %d width 1\n", e->k); abort();
      }
    } else {
      Z3_sort s = bvs(e->w);
      switch (e->k) {
        case EConst:
          if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->lo, s);
          else { Z3_ast hi = R(Z3_mk_unsigned_int64(ctx, e->hi, bvs(e->w - 64))), lo = R(Z3_mk_unsigned_int64(ctx, e->lo, bvs(64))); r = Z3_mk_concat(ctx, hi, lo); }
          break;
        case EVar: { std::string n = "v" + std::to_string(e->aux) + "_" + std::to_string(e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), s); break; }
        case EAdd: r = Z3_mk_bvadd(ctx, T(e->a), T(e->b)); break;
        case ESub: r = Z3_mk_bvsub(ctx, T(e->a), T(e->b)); break;
        case EMul: r = Z3_mk_bvmul(ctx, T(e->a), T(e->b)); break;
        case EUDiv: r = Z3_mk_bvudiv(ctx, T(e->a), T(e->b)); break;
        case ESDiv: r = Z3_mk_bvsdiv(ctx, T(e->a), T(e->b)); break;
        case EURem: r = Z3_mk_bvurem(ctx, T(e->a), T(e->b)); break;
        case ESRem: r = Z3_mk_bvsrem(ctx, T(e->a), T(e->b)); break;
        case EAnd: r = Z3_mk_bvand(ctx, T(e->a), T(e->b)); break;
        case EOr: r = Z3_mk_bvor(ctx, T(e->a), T(e->b)); break;
        case EXor: r = Z3_mk_bvxor(ctx, T(e->a), T(e->b)); break;
        case EShl: r = Z3_mk_bvshl(ctx, T(e->a), T(e->b)); break;
        case ELShr: r = Z3_mk_bvlshr(ctx, T(e->a), T(e->b)); break;
        case EAShr: r = Z3_mk_bvashr(ctx, T(e->a), T(e->b)); break;
        case EIte: r = Z3_mk_ite(ctx, T(e->a), T(e->b), T(e->c)); break;
        case EConcat: r = Z3_mk_concat(ctx, bvOf(e->a), bvOf(e->b)); break;
        case EExtract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, T(e->a)); break;
        case EZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bvOf(e->a)); break;
        case ESExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bvOf(e->a)); break;
        default: fprintf(stderr, "T: kind %d\n", e->k); abort();
      }
    }
    return keep(e->id, r);
  }
  Z3_ast L(const Expr *e) {
    if (e->id < lit.size() && lit[e->id]) return lit[e->id];
    std::string n = "p" + std::to_string(e->id);
    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx));
    Z3_inc_ref(ctx, p);
    if (lit.size() <= e->id) lit.resize(e->id + 1024, nullptr);
    lit[e->id] = p;
    Z3_solver_assert(ctx, sol, Z3_mk_implies(ctx, p, T(e)));
    asserted++;
    return p;
  }

  // Is (slice of pc relevant to cond) && cond satisfiable? On SAT the variables of the slice are written to `m`.
  SatRes check(const std::vector<const Expr *> &pc, const Expr *cond, Model &m) {
    if (cond->isConst()) return cond->lo ? SAT : UNSAT;
    st.queries++;
    // slice
    static std::vector<const Expr *> slice;
    static std::vector<char> inSlice;
    slice.clear();
    inSlice.assign(pc.size(), 0);
    static std::vector<uint64_t> bits;
    auto has = [&](uint32_t v) { return (v >> 6) < bits.size() && (bits[v >> 6] >> (v & 63) & 1); };
    auto add = [&](uint32_t v) { if ((v >> 6) >= bits.size()) bits.resize((v >> 6) + 1, 0); bits[v >> 6] |= 1ull << (v & 63); };
    bits.clear();
    for (auto v : cond->vars->v) add(v);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) {
        if (inSlice[i]) continue;
        bool t = false;
        for (auto v : pc[i]->vars->v) if (has(v)) { t = true; break; }
        if (t) {
          inSlice[i] = 1;
          slice.push_back(pc[i]);
          for (auto v : pc[i]->vars->v) add(v);
          ch = true;
        }
      }
    }
    std::vector<uint32_t> key;
    key.reserve(slice.size() + 1);
    for (auto e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.push_back(cond->id);
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cacheHits++;
      if (it->second.r == SAT) for (auto &p : it->second.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
      return it->second.r;
    }
    std::vector<uint32_t> vars;
    for (size_t i = 0; i < bits.size(); i++) for (int b = 0; b < 64; b++) if (bits[i] >> b & 1) vars.push_back(i * 64 + b);
    // split conjunctions of cond so that literals stay reusable
    Entry en;
    en.r = z3(slice, cond, vars, en.m);
    if (en.r == SAT) {
      Model test = m;
      for (auto &p : en.m) { if (test.size() <= p.first) test.resize(p.first + 1, 0); test[p.first] = p.second; }
      // independent validation of the solver's model by our own evaluator
      bool ok = P.eval(cond, test) == 1;
      for (auto e : slice) ok = ok && P.eval(e, test) == 1;
      if (!ok) { fprintf(stderr, "solver model does not satisfy the query (engine bug)\n"); abort(); }
      m.swap(test);
    }
    if (en.r == UNKNOWN) st.unknowns++;
    else cache.emplace(std::move(key), en);
    return en.r;
  }
  SatRes z3(const std::vector<const Expr *> &slice, const Expr *cond, const std::vector<uint32_t> &vars, std::vector<std::pair<uint32_t, uint64_t>> &out) {
    auto t0 = std::chrono::steady_clock::now();
    st.z3calls++;
    if (asserted > 3000) reset();
    std::vector<Z3_ast> as;
    for (auto e : slice) as.push_back(L(e));
    as.push_back(L(cond));
    Z3_lbool r = Z3_solver_check_assumptions(ctx, sol, as.size(), as.data());
    SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) {
      Z3_model mo = Z3_solver_get_model(ctx, sol);
      Z3_model_inc_ref(ctx, mo);
      std::map<uint32_t, const Expr *> ve;
      for (auto e : slice) collect(e, ve);
      collect(cond, ve);
      for (auto &p : ve) {
        Z3_ast v;
        uint64_t x = 0;
        if (Z3_model_eval(ctx, mo, T(p.second), true, &v)) {
          if (p.second->w == 1) x = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
          else { uint64_t q = 0; if (!Z3_get_numeral_uint64(ctx, v, &q)) { fprintf(stderr, "model value\n"); abort(); } x = q; }
        }
        out.push_back({p.first, x});
      }
      Z3_model_dec_ref(ctx, mo);
    }
    st.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
  }
  uint64_t cep = 1;
  std::unordered_map<uint32_t, const Expr *> varExprs;
  void collect(const Expr *e, std::map<uint32_t, const Expr *> &out) {
    for (auto v : e->vars->v) {
      auto it = varExprs.find(v);
      if (it != varExprs.end()) out[v] = it->second;
    }
  }
};
