// Instruction semantics and the path loop.
#pragma once
struct PathDone {};

static u128 cvOf(const Val &v) { return v.e ? v.e->cv() : v.c; }

void Engine::step() {
  Frame &f = s->fr.back();
  curPc = f.pc;
  DInst &d = f.fn->code[f.pc];
  f.pc++;
  cur = d.I;
  if (++s->steps > opt.maxSteps) fault("hang", "instruction limit exceeded (no termination within " + std::to_string(opt.maxSteps) + " instructions)");
  switch (d.op) {
    case OBin: { Val r = binop(d.sub, d.w, get(d.a), get(d.b)); set(d.dst, r); return; }
    case OICmp: { Val r = icmp(d.sub, d.w, get(d.a), get(d.b)); set(d.dst, r); return; }
    case OMov: set(d.dst, get(d.a)); return;
    case OFBin: {
      Val a = get(d.a), b = get(d.b), r;
      if (d.w == 64 && d.sub == Instruction::FAdd && (a.e || b.e)) {  // exact sum of two integers
        const Expr *x = intOf(a), *y = intOf(b);
        if (x && y && x->umx + y->umx < ((u128)1 << 53)) { set(d.dst, i2d(P.bin(EAdd, x, y))); return; }
      }
      if (d.w == 64) {
        double x = asD(concretize(a, 64, "fp")), y = asD(concretize(b, 64, "fp")), z;
        switch (d.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); }
        r.c = frD(z);
      } else if (d.w == 32) {
        float x = asF(concretize(a, 32, "fp")), y = asF(concretize(b, 32, "fp")), z;
        switch (d.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodf(x, y); }
        r.c = frF(z);
      } else {
        long double x = fpv(a, 80), y = fpv(b, 80), z;
        switch (d.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmodl(x, y); }
        r = frL(z);
      }
      set(d.dst, r);
      return;
    }
    case OFCmp: {
      if (d.w == 64) {
        Val a = get(d.a), b = get(d.b);
        if (a.e || b.e) { set(d.dst, fcmpSym(d.sub, a, b)); return; }
      }
      long double x = fpv(get(d.a), d.w), y = fpv(get(d.b), d.w);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (d.sub) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        default: r = true;
      }
      Val v; v.c = r;
      set(d.dst, v);
      return;
    }
    case OFNeg: {
      Val a = get(d.a);
      if (d.w == 80) set(d.dst, frL(-asL(a)));
      else { Val r; r.c = concretize(a, d.w, "fp") ^ (1ull << (d.w - 1)); set(d.dst, r); }
      return;
    }
    case OCast: {
      Val a = get(d.a), r;
      switch (d.sub) {
        case Instruction::Trunc: if (!a.e) r = mkc(a.c, d.w); else r = fromE(P.extract(a.e, 0, d.w)); break;
        case Instruction::ZExt: if (!a.e) r = mkc(a.c, d.w); else r = fromE(P.zext(a.e, d.w)); break;
        case Instruction::SExt: if (!a.e) r = mkc((u128)sextw(a.c, d.w2), d.w); else r = fromE(P.sext(a.e, d.w)); break;
        case Instruction::BitCast: r = a; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          if (d.w == d.w2) r = a;
          else if (d.w < d.w2) { if (!a.e) r = mkc(a.c, d.w); else r = fromE(P.extract(a.e, 0, d.w)); }
          else { if (!a.e) r = mkc(a.c, d.w); else r = fromE(P.zext(a.e, d.w)); }
          break;
        case Instruction::FPToUI: {
          if (a.e && d.w2 == 64) { const Expr *x = intOf(a); if (x && x->umx < ((u128)1 << 53) && (d.w == 64 || x->umx < ((u128)1 << d.w))) { r = fromE(d.w == 64 ? x : P.extract(x, 0, d.w)); break; } }
          long double x = fpv(a, d.w2);
          uint64_t v = x < 0 ? (uint64_t)(int64_t)x : x >= 18446744073709551616.0L ? 0x8000000000000000ull : (uint64_t)x;
          if (std::isnan(x)) v = 0x8000000000000000ull;
          r = mkc(v, d.w); break;
        }
        case Instruction::FPToSI: {
          if (a.e && d.w2 == 64) { const Expr *x = intOf(a); if (x && x->umx < ((u128)1 << 53) && (d.w == 64 || x->umx < ((u128)1 << (d.w - 1)))) { r = fromE(d.w == 64 ? x : P.extract(x, 0, d.w)); break; } }
          long double x = fpv(a, d.w2);
          int64_t v = (std::isnan(x) || x >= 9223372036854775808.0L || x < -9223372036854775808.0L) ? INT64_MIN : (int64_t)x;
          r = mkc((u128)(__int128)v, d.w); break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
          if (d.w2 > 64) unsupported("wide int to fp");
          if (a.e && d.w == 64 && a.e->umx < ((u128)1 << 53) && (d.sub == Instruction::UIToFP || a.e->umx < ((u128)1 << (d.w2 - 1)))) { r = i2d(P.zext(a.e, 64)); break; }
          uint64_t x = concretize(a, d.w2, "int to fp");
          bool sg = d.sub == Instruction::SIToFP;
          int64_t sx = (int64_t)sextw(x, d.w2);
          if (d.w == 64) r.c = frD(sg ? (double)sx : (double)x);
          else if (d.w == 32) r.c = frF(sg ? (float)sx : (float)x);
          else r = frL(sg ? (long double)sx : (long double)x);
          break;
        }
        case Instruction::FPTrunc: case Instruction::FPExt: {
          long double x = fpv(a, d.w2);
          if (d.w == 64) r.c = frD((double)x); else if (d.w == 32) r.c = frF((float)x); else r = frL(x);
          break;
        }
        default: r = a;
      }
      set(d.dst, r);
      return;
    }
    case OVecCast: {
      auto &sl = f.fn->leaves[d.x]; auto &dl = f.fn->leaves[d.x + 1];
      const Expr *e = nullptr;
      for (size_t i = 0; i < sl.size(); i++) { const Expr *p = toE(get(Decoder::nth(d.a, i)), sl[i].w); e = e ? P.concat(p, e) : p; }
      unsigned off = 0;
      for (size_t i = 0; i < dl.size(); i++) { set(d.dst + i, fromE(P.extract(e, off, dl[i].w))); off += dl[i].w; }
      return;
    }
    case OLoad: {
      Val p = get(d.a);
      auto &ls = f.fn->leaves[d.x];
      if (ls.size() == 1 && !p.e) { Val v = load(p, ls[0].w, ls[0].off); set(d.dst, v); return; }
      std::vector<Val> vs;
      for (auto &l : ls) vs.push_back(load(p, l.w, l.off));
      for (size_t i = 0; i < vs.size(); i++) set(d.dst + i, vs[i]);
      return;
    }
    case OStore: {
      Val p = get(d.a);
      auto &ls = f.fn->leaves[d.x];
      if (p.e && ls.size() == 1 && symStore(p.e, ls[0].w, ls[0].off, get(d.b))) return;
      if (p.e) { p.c = concretize(p, 64, "store address"); p.e = nullptr; }
      for (size_t i = 0; i < ls.size(); i++) store(p, ls[i].w, get(Decoder::nth(d.b, i)), ls[i].off);
      return;
    }
    case OGep: {
      Val r = get(d.a);
      Val off = get(d.b);
      for (auto &g : f.fn->geps[d.x]) {
        Val i = get(g.r);
        if (!i.e) off = binop(Instruction::Add, 64, off, mkc((u128)((__int128)(int64_t)sextw(i.c, g.w) * g.scale) & maskw(64), 64));
        else off = binop(Instruction::Add, 64, off, binop(Instruction::Mul, 64, fromE(P.sext(i.e, 64)), mkc((uint64_t)g.scale, 64)));
      }
      set(d.dst, binop(Instruction::Add, 64, r, off));
      return;
    }
    case OSelect: {
      Val c = get(d.a), b = get(d.b), e = get(d.c);
      if (!c.e) { set(d.dst, c.c & 1 ? b : e); return; }
      bool kv;
      if (known(c.e, kv)) { set(d.dst, kv ? b : e); return; }
      if (d.sub) {  // pointer: decide now
        int32_t dst = d.dst;
        bool r = branch(c.e, [&](State *n, bool v) { n->fr.back().regs[dst] = v ? b : e; });
        set(d.dst, r ? b : e);
        return;
      }
      set(d.dst, fromE(P.ite(c.e, toE(b, d.w), toE(e, d.w))));
      return;
    }
    case OBr: jump(d.x); return;
    case OCondBr: {
      Val c = get(d.a);
      if (!c.e) { jump(c.c & 1 ? d.x : d.y); return; }
      uint32_t x = d.x, y = d.y;
      bool r = branch(c.e, [&](State *n, bool v) { jumpIn(this, n, v ? x : y); });
      jump(r ? x : y);
      return;
    }
    case OSwitch: {
      Val c = get(d.a);
      auto &cs = f.fn->switches[d.y];
      if (c.e) {
        // fork per case
        uint32_t dx = d.x;
        const Expr *e = c.e;
        for (size_t i = 0; i < cs.size(); i++) {
          const Expr *q = P.bin(EEq, e, P.con(cs[i].first, d.w));
          bool kv;
          if (known(q, kv)) { if (kv) { jump(cs[i].second); return; } continue; }
          bool curv = P.eval(q, s->model) != 0;
          if (curv) {
            Model m = s->model;
            if (sat(P.lnot(q), m) == SAT) {
              State *n = forkState();  // the other side re-executes the switch
              n->model.swap(m);
              n->fr.back().pc = curPc;
              State *sv = s; s = n; addPC(P.lnot(q)); s = sv;
              push(n);
              addPC(q);
            }
            jump(cs[i].second);
            return;
          }
          Model m = s->model;
          if (sat(q, m) == SAT) {
            State *n = forkState();
            n->model.swap(m);
            State *sv = s; s = n; addPC(q); s = sv;
            jumpIn(this, n, cs[i].second);
            push(n);
            addPC(P.lnot(q));
          }
        }
        jump(dx);
        return;
      }
      for (auto &p : cs) if (p.first == c.c) { jump(p.second); return; }
      jump(d.x);
      return;
    }
    case ORet: {
      Val rv[16];
      unsigned n = std::min<uint32_t>(d.x, 16);
      for (unsigned i = 0; i < n; i++) rv[i] = get(Decoder::nth(d.a, i));
      leave(rv, n);
      return;
    }
    case OUnreachable: fault("unreachable", "undefined behaviour: unreachable code executed");
    case OResume: fault("exception", "exception propagated");
    case OAlloca: {
      uint64_t n = concretize(get(d.a), d.w, "alloca size");
      Val v; v.c = alloc(n * d.x, KStack, true, "stack");
      s->fr.back().allocas.push_back(v.c >> 32);
      set(d.dst, v);
      return;
    }
    case OCall: execCall(d, f.fn->calls[d.x]); return;
    default: unsupported("opcode");
  }
}

void Engine::execCall(DInst &d, CallInfo &ci) {
  std::vector<Val> args;
  args.reserve(ci.args.size());
  for (int32_t o : ci.args) args.push_back(get(o));
  Fn *callee = ci.fn;
  int b = ci.builtin;
  std::string *nm = &ci.name;
  if (!callee && b < 0) {
    uint64_t a = concretize(get(ci.callee), 64, "call target");
    if (a < 65536) fault("memory", "call through null function pointer");
    uint64_t k = (a >> 32) - FNBASE;
    if ((a >> 32) < FNBASE || k >= fnByIdx.size() || (a & 0xffffffff) != OBJ_BASE) fault("memory", "call through invalid function pointer");
    callee = fnByIdx[k];
    auto r = opt.repl.find(callee->name);
    if (r != opt.repl.end()) { Function *nf = M->getFunction(r->second); if (nf && nf != s->fr.back().fn->F) callee = fnOf(nf); }
    b = builtinOf(callee->F);
    if (b < 0 && callee->F->isDeclaration()) b = B_unknown;
    nm = &callee->name;
    if (b >= 0) {
      CallInfo c2 = ci;
      c2.name = *nm;
      builtin(d, c2, b, args);
      if (ci.normal >= 0) jump(ci.normal);
      return;
    }
  }
  if (b >= 0) {
    builtin(d, ci, b, args);
    if (ci.normal >= 0) jump(ci.normal);
    return;
  }
  // by-value aggregates get a private copy
  std::vector<uint32_t> copies;
  for (auto &p : ci.byval) {
    uint64_t src = concretize(args[p.first], 64, "byval");
    uint64_t na = alloc(p.second, KStack, false, "byval");
    copyMem(na, src, p.second);
    copies.push_back(na >> 32);
    args[p.first] = Val();
    args[p.first].c = na;
  }
  uint32_t extra = callee->decoded || true ? 0 : 0;
  (void)extra;
  decode(callee);
  if (callee->F->isVarArg()) {
    // SysV va area: every variadic argument as one 8-byte overflow slot
    size_t nfix = callee->argRegs.size();
    uint64_t n = args.size() > nfix ? args.size() - nfix : 0;
    uint64_t va = alloc(8 * n + 8, KStack, false, "va area");
    copies.push_back(va >> 32);
    for (uint64_t i = 0; i < n; i++) { unsigned w = ci.widths[nfix + i]; storeAt(va >> 32, 8 * i, w < 64 ? w : 64, args[nfix + i]); }
    enter(callee, args, d.dst);
    s->fr.back().va = va;
  } else
    enter(callee, args, d.dst);
  for (auto id : copies) s->fr.back().allocas.push_back(id);
}

static std::string fmtArgs(Engine *E, const std::string &fmt, std::vector<Val> &a, size_t ai, CallInfo &ci) {
  std::string out;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') { out += '%'; i++; continue; }
    std::string sp = "%";
    i++;
    std::string lenm;
    while (i < fmt.size() && strchr("-+ #0123456789.*'", fmt[i])) {
      if (fmt[i] == '*') { uint64_t v = E->concretize(a.at(ai), ci.widths[ai], "fmt"); ai++; sp += std::to_string((int)v); }
      else sp += fmt[i];
      i++;
    }
    while (i < fmt.size() && strchr("hlLzjtq", fmt[i])) lenm += fmt[i++];
    char c = fmt[i];
    char buf[2048];
    if (strchr("diuxXoc", c)) {
      unsigned w = ci.widths.at(ai);
      uint64_t v = E->concretize(a.at(ai), w, "fmt"); ai++;
      if (c == 'c') snprintf(buf, sizeof buf, (sp + "c").c_str(), (int)v);
      else {
        if (lenm == "h") v = (c == 'd' || c == 'i') ? (uint64_t)(int16_t)v : (uint16_t)v;
        else if (lenm == "hh") v = (c == 'd' || c == 'i') ? (uint64_t)(int8_t)v : (uint8_t)v;
        else if (lenm.empty()) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
        snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (long long)v);
      }
      out += buf;
    } else if (strchr("fFeEgGaA", c)) {
      if (ci.widths.at(ai) == 80) { long double v = E->fpv(a.at(ai), 80); ai++; snprintf(buf, sizeof buf, (sp + "L" + c).c_str(), v); }
      else { double v = Engine::asD(E->concretize(a.at(ai), 64, "fmt")); ai++; snprintf(buf, sizeof buf, (sp + c).c_str(), v); }
      out += buf;
    } else if (c == 's') {
      uint64_t p = E->concretize(a.at(ai), 64, "fmt"); ai++;
      std::string v = p ? E->cstr(p) : "(null)";
      if (v.size() > 1500) v.resize(1500);
      snprintf(buf, sizeof buf, (sp + "s").c_str(), v.c_str());
      out += buf;
    } else if (c == 'p') { ai++; out += "0x0"; }
    else unsupported("format conversion");
  }
  return out;
}

void Engine::builtin(DInst &d, CallInfo &ci, int id, std::vector<Val> &a) {
  auto ret = [&](const Val &v) { if (d.dst >= 0) set(d.dst, v); };
  auto retc = [&](uint64_t v) { if (d.dst >= 0) set(d.dst, mkc(v, ci.retW ? ci.retW : 64)); };
  auto c64 = [&](int i) { return concretize(a.at(i), ci.widths.at(i), ci.name.c_str()); };
  auto wr = [&](uint64_t p, const std::string &str) {  // with NUL
    uint32_t oid, off;
    MemObj *m = locate(p, str.size() + 1, oid, off, true);
    (void)m;
    MemObj *o = s->own(oid);
    o->setInit(off, str.size() + 1);
    clearCells(o, off, str.size() + 1);
    o->wrN(off, (const uint8_t *)str.c_str(), str.size() + 1);
  };
  auto newStr = [&](const std::string &str) {
    uint64_t p = alloc(str.size() + 1, KHeap, false, "string");
    s->own(p >> 32)->wrN(0, (const uint8_t *)str.c_str(), str.size() + 1);
    return p;
  };
  auto site = [&]() -> const char * {
    static std::unordered_map<const Instruction *, const char *> m;
    auto &x = m[cur];
    if (!x) x = strdup(locOf(cur).c_str());
    return x;
  };
  switch (id) {
    case B_nop: case B_nop0: retc(0); return;
    case B_printf: case B_fprintf: {  // the output itself does not matter, the strings that are read do
      size_t ai = id == B_fprintf ? 2 : 1;
      if (a.size() < ai || a[ai - 1].e) { retc(0); return; }
      std::string f = cstr(a[ai - 1].c);
      for (size_t i = 0; i < f.size() && ai < a.size(); i++) {
        if (f[i] != '%') continue;
        if (f[++i] == '%') continue;
        bool prec = false;
        while (i < f.size() && strchr("-+ #0123456789.*'hlLzjtq", f[i])) { if (f[i] == '.') prec = true; if (f[i] == '*') ai++; i++; }
        if (f[i] == 's' && !prec && ai < a.size() && !a[ai].e && a[ai].c)
          for (uint64_t p = a[ai].c;; p++) { Val v, q; q.c = p; v = load(q, 8); if (!v.e && !v.c) break; if (v.e) break; }
        ai++;
      }
      retc(0); return;
    }
    case B_nop1: {  // guard variables: run the initialiser once per path
      uint64_t p = c64(0);
      Val pv; pv.c = p;
      Val g = load(pv, 8);
      if (cvOf(g)) { retc(0); return; }
      store(pv, 8, mkc(1, 8));
      retc(1);
      return;
    }
    case B_zero:
      if (ci.name == "gettimeofday" || ci.name == "clock_gettime" || ci.name == "getrusage") {
        uint64_t p = c64(ci.name == "gettimeofday" ? 0 : 1);
        int n = ci.name == "getrusage" ? 18 : 2;
        Val pv; pv.c = p;
        for (int i = 0; i < n; i++) store(pv, 64, mkc(0, 64), i * 8);
      }
      else if (ci.name == "strftime" && c64(1)) { Val pv; pv.c = c64(0); store(pv, 8, mkc(0, 8)); }  // the empty text
      retc(0);
      return;
    case B_malloc: { uint64_t n = c64(0); retc(alloc(n, KHeap, true, site())); return; }
    case B_calloc: { uint64_t n = c64(0), k = c64(1); retc(alloc(n * k, KHeap, false, site())); return; }
    case B_malloc_n: { uint64_t n = c64(0), k = c64(1); retc(n * k ? alloc(n * k, KHeap, true, site()) : 0); return; }
    case B_calloc_n: {
      uint64_t n = c64(0); if (a.size() > 1) n *= c64(1);
      retc(n ? alloc(n, KHeap, false, site()) : 0);
      return;
    }
    case B_memalign: { uint64_t n = c64(a.size() > 1 && ci.name[0] != '_' ? 1 : 0); retc(alloc(n, KHeap, true, site())); return; }
    case B_posix_memalign: { uint64_t p = c64(0), n = c64(2); Val pv; pv.c = p; Val v; v.c = alloc(n, KHeap, true, site()); store(pv, 64, v); retc(0); return; }
    case B_realloc: case B_realloc_n: {
      uint64_t p = c64(0), n = c64(1);
      if (id == B_realloc_n) n *= c64(2);
      if (!p) { retc(alloc(n, KHeap, true, site())); return; }
      uint32_t oid = p >> 32;
      MemObj *m = s->get(oid);
      if (!m || m->kind != KHeap || (uint32_t)p != OBJ_BASE) fault("memory", "realloc of an invalid pointer");
      uint64_t old = m->size;
      uint64_t q = alloc(n, KHeap, true, site());
      copyMem(q, p, std::min(old, n));
      s->drop(oid);
      retc(q);
      return;
    }
    case B_free: {
      uint64_t p = c64(0);
      if (!p) return;
      uint32_t oid = p >> 32;
      MemObj *m = s->get(oid);
      if (!m) fault("memory", oid < s->nextObj ? "double free" : "free of a wild pointer");
      if (m->kind != KHeap) fault("memory", "free of non-heap memory");
      if ((uint32_t)p != OBJ_BASE) fault("memory", "free of an interior pointer");
      if (s->epoch && s->thread && m->epoch == s->epoch) {
        auto blocks = m->touch;  // freeing writes every byte somebody has touched
        for (auto &b : blocks) track(oid, s->get(oid), b.first * 64, std::min<uint32_t>(64, m->size - b.first * 64), true);
      }
      s->drop(oid);
      return;
    }
    case B_lock: case B_unlock: lockOp(c64(0), id == B_lock); if (ci.retN) retc(0); return;
    case B_thread_op: threadOp((unsigned)c64(0), c64(1)); return;
    case B_memcpy: case B_memmove: {
      uint64_t n = c64(2);
      if (n) { uint64_t x = c64(0), y = c64(1); copyMem(x, y, n); }
      if (ci.retN) ret(a[0]);
      return;
    }
    case B_memset: {
      uint64_t n = c64(2);
      if (n) {
        uint64_t p = c64(0);
        uint64_t c = c64(1) & 255;
        uint32_t oid, off;
        locate(p, n, oid, off, true);
        MemObj *o = s->own(oid);
        o->setInit(off, n);
        clearCells(o, off, n);
        if (o->data) memset(o->data + off, c, n);
        else if (c == 0) {
          for (uint64_t i = off; i < off + n;) {
            uint64_t pg = i / PAGE;
            if (i % PAGE == 0 && (i + PAGE <= off + n || i + PAGE >= o->size)) { Page *&q = o->pages[pg]; if (q && --q->rc == 0) { free(q->d); delete q; } q = nullptr; i += PAGE; }
            else { if (o->pages[pg]) o->wr(i, 0); i++; }
          }
        } else for (uint64_t i = off; i < off + n; i++) o->wr(i, c);
      }
      if (ci.retN) ret(a[0]);
      return;
    }
    case B_abort: case B_throw:
      if (s->expectAbort) { R.abortsOk++; throw PathEnd(); }
      fault("abort", ci.name + " called");
    case B_exit: {
      uint64_t c = c64(0);
      if (s->expectAbort) { R.abortsOk++; throw PathEnd(); }
      fault("abort", "exit(" + std::to_string(c) + ") called");
    }
    case B_trap: fault("abort", "trap");
    case B_assert: if (s->expectAbort) { R.abortsOk++; throw PathEnd(); } fault("assert", "assertion failed: " + cstr(c64(0)));
    case B_snprintf: {
      int fi = ci.name == "__snprintf_chk" ? 4 : 2;
      uint64_t p = c64(0), n = c64(1);
      std::string r = fmtArgs(this, cstr(c64(fi)), a, fi + 1, ci);
      uint64_t full = r.size();
      if (n) { if (r.size() >= n) r.resize(n - 1); wr(p, r); }
      retc(full);
      return;
    }
    case B_sprintf: { uint64_t p = c64(0); std::string r = fmtArgs(this, cstr(c64(1)), a, 2, ci); wr(p, r); retc(r.size()); return; }
    case B_g_strdup_printf: { std::string r = fmtArgs(this, cstr(c64(0)), a, 1, ci); retc(newStr(r)); return; }
    // ---- harness interface
    case B_sym: {
      const char *nm = strdup(cstr(c64(0)).c_str());
      unsigned w = c64(1);
      const Expr *e = freshVar(w);
      s->inputs.push_back({nm, e, 0, w});
      ret(fromE(P.zext(e, 64)));
      return;
    }
    case B_range: {
      const char *nm = strdup(cstr(c64(0)).c_str());
      uint64_t lo = c64(1), hi = c64(2);
      if (hi < lo) unsupported("lc_range with hi < lo");
      uint64_t sp = hi - lo;
      if (sp == 0) { s->inputs.push_back({nm, P.con(0, 1), lo, 1}); retc(lo); return; }
      unsigned w = 0;
      while (w < 64 && (sp >> w)) w++;
      const Expr *e = freshVar(w);
      s->inputs.push_back({nm, e, lo, w});
      if (sp != (uint64_t)maskw(w)) addPC(P.bin(EUle, e, P.con(sp, w)));
      ret(fromE(P.bin(EAdd, P.zext(e, 64), P.con(lo, 64))));
      return;
    }
    case B_bytes: {
      uint64_t p = c64(0), n = c64(1);
      std::string nm = cstr(c64(2));
      uint32_t oid, off;
      if (n) locate(p, n, oid, off, true);
      for (uint64_t i = 0; i < n; i++) {
        const Expr *e = freshVar(8);
        s->inputs.push_back({strdup(nm.c_str()), e, 0, 8});
        storeAt(oid, off + i, 8, fromE(e));
      }
      return;
    }
    case B_assume: {
      Val c = a.at(0);
      const Expr *e = P.lnot(P.bin(EEq, toE(c, ci.widths[0]), P.con(0, ci.widths[0])));
      bool v;
      if (known(e, v)) { if (!v) { R.infeasible++; throw PathEnd(); } return; }
      if (!P.eval(e, s->model)) {
        Model m = s->model;
        SatRes r = sat(e, m);
        if (r != SAT) { R.infeasible++; throw PathEnd(); }
        s->model.swap(m);
      }
      addPC(e);
      return;
    }
    case B_check: {
      Val c = a.at(0);
      R.checks++;
      std::string msg = cstr(c64(1));
      R.checkLabels[msg]++;
      const Expr *e = P.lnot(P.bin(EEq, toE(c, ci.widths[0]), P.con(0, ci.widths[0])));
      if (e->isConst()) { if (!e->lo) fault("check", msg); R.checksDischarged++; return; }
      bool v;
      if (known(e, v)) { if (!v) fault("check", msg); R.checksDischarged++; return; }
      if (!P.eval(e, s->model)) fault("check", msg);
      Model m = s->model;
      SatRes r = sat(P.lnot(e), m);
      if (r == SAT) { violation("check", msg, m); addPC(e); if (stopAll) throw PathEnd(); return; }
      if (r == UNSAT) R.checksDischarged++;
      return;
    }
    case B_cover: R.covers[cstr(c64(0))]++; return;
    case B_observe: { const char *l = strdup(cstr(c64(0)).c_str()); s->obs.push_back({l, a.at(1)}); return; }
    case B_concretize: retc(c64(0)); return;
    case B_done: throw PathDone();
    case B_engine: retc(1); return;
    case B_param: {
      auto it = opt.params.find(cstr(c64(0)));
      if (it == opt.params.end()) retc(c64(1));
      else retc(strtoll(it->second.c_str(), nullptr, 0));
      return;
    }
    case B_sparam: {
      auto it = opt.params.find(cstr(c64(0)));
      if (it == opt.params.end()) ret(a.at(1));
      else { uint64_t p = newStr(it->second); s->own(p >> 32)->kind = KGlobal; retc(p); }
      return;
    }
    case B_expect_abort: s->expectAbort = c64(0); return;
    case B_live: {
      uint64_t n = 0;
      for (auto ch : s->mem) if (ch) for (auto o : ch->o) if (o && o->kind == KHeap) n++;
      retc(n);
      return;
    }
    case B_print: if (opt.verbose) { std::string l = cstr(c64(0)); fprintf(stderr, "lc_print %s %s (now %lld)\n", l.c_str(), a.at(1).e ? P.str(a[1].e).c_str() : "", (long long)(a[1].e ? (uint64_t)P.eval(a[1].e, s->model) : a[1].c)); } return;
    case B_valid: {  // is [p, p+n) readable live memory?
      uint64_t p = c64(0), n = c64(1);
      MemObj *m = (p >> 32) ? s->get(p >> 32) : nullptr;
      int64_t o = (int64_t)(uint32_t)p - (int64_t)OBJ_BASE;
      retc(m && o >= 0 && (uint64_t)o + n <= m->size);
      return;
    }
    // ---- numeric
    case B_math1: {
      unsigned w = ci.widths.at(0);
      double x = (double)fpv(a[0], w), r;
      std::string n = ci.name;
      if (n.rfind("llvm.", 0) == 0) n = n.substr(5, n.find('.', 5) - 5);
      if (w == 32 && n.size() > 1 && n.back() == 'f') n.pop_back();
      if (n == "log") r = w == 32 ? logf(x) : log(x); else if (n == "log2") r = w == 32 ? log2f(x) : log2(x); else if (n == "log10") r = w == 32 ? log10f(x) : log10(x);
      else if (n == "exp") r = w == 32 ? expf(x) : exp(x); else if (n == "exp2") r = w == 32 ? exp2f(x) : exp2(x); else if (n == "sqrt") r = w == 32 ? sqrtf(x) : sqrt(x);
      else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "fabs") r = fabs(x);
      else if (n == "round") r = round(x); else if (n == "trunc") r = trunc(x); else if (n == "rint" || n == "nearbyint") r = rint(x);
      else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "log1p") r = log1p(x); else if (n == "expm1") r = expm1(x);
      else unsupported("math function " + ci.name);
      Val v; v.c = w == 32 ? frF((float)r) : frD(r);
      if (w == 80) unsupported("long double math");
      ret(v);
      return;
    }
    case B_math2: {
      unsigned w = ci.widths.at(0);
      double x = (double)fpv(a[0], w), y = (double)fpv(a[1], w), r;
      const std::string &n = ci.name;
      if (n.find("pow") != std::string::npos) r = w == 32 ? powf(x, y) : pow(x, y);
      else if (n.find("min") != std::string::npos) r = fmin(x, y);
      else if (n.find("max") != std::string::npos) r = fmax(x, y);
      else if (n.find("fmod") != std::string::npos) r = fmod(x, y);
      else if (n.find("copysign") != std::string::npos) r = copysign(x, y);
      else unsupported("math function " + n);
      Val v; v.c = w == 32 ? frF((float)r) : frD(r);
      ret(v);
      return;
    }
    case B_ldexp: { Val v; v.c = frD(ldexp((double)fpv(a[0], 64), (int)c64(1))); ret(v); return; }
    case B_fma: {
      unsigned w = ci.widths.at(0);
      unsigned n = ci.retN;
      std::vector<Val> out;
      for (unsigned i = 0; i < n; i++) {
        Val v;
        if (w == 64) { double x = (double)fpv(a[i], 64), y = (double)fpv(a[n + i], 64), z = (double)fpv(a[2 * n + i], 64); volatile double t = x * y; v.c = frD(t + z); }
        else { float x = (float)fpv(a[i], 32), y = (float)fpv(a[n + i], 32), z = (float)fpv(a[2 * n + i], 32); volatile float t = x * y; v.c = frF(t + z); }
        out.push_back(v);
      }
      for (unsigned i = 0; i < n; i++) set(d.dst + i, out[i]);
      return;
    }
    case B_isfpclass: {
      double x = (double)fpv(a[0], ci.widths[0]);
      uint64_t m = c64(1);
      bool r = false;
      if ((m & 3) && std::isnan(x)) r = true;
      if ((m & 0x4) && std::isinf(x) && x < 0) r = true;
      if ((m & 0x200) && std::isinf(x) && x > 0) r = true;
      retc(r);
      return;
    }
    case B_clz: case B_ctz: case B_popcount: case B_bswap: {
      unsigned w = ci.widths[0];
      uint64_t v = 0;
      if (id == B_bswap && a[0].e) {
        const Expr *r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { const Expr *p = P.extract(a[0].e, i * 8, 8); r = r ? P.concat(r, p) : p; }
        ret(fromE(r));
        return;
      }
      if (a[0].e && id == B_popcount) {
        const Expr *r = P.con(0, w);
        for (unsigned i = 0; i < w; i++) r = P.bin(EAdd, r, P.zext(P.extract(a[0].e, i, 1), w));
        ret(fromE(r));
        return;
      }
      if (a[0].e && w <= 64) {
        const Expr *r = P.con(w, w);
        if (id == B_clz) for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(a[0].e, i, 1), P.con(w - 1 - i, w), r);
        else for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(a[0].e, i, 1), P.con(i, w), r);
        ret(fromE(r));
        return;
      }
      v = a[0].c;
      uint64_t r = 0;
      if (id == B_clz) { r = w; for (unsigned i = 0; i < w; i++) if (v >> (w - 1 - i) & 1) { r = i; break; } }
      else if (id == B_ctz) { r = w; for (unsigned i = 0; i < w; i++) if (v >> i & 1) { r = i; break; } }
      else if (id == B_popcount) r = __builtin_popcountll(v);
      else for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (i * 8)) & 255) << (w - 8 - i * 8);
      retc(r);
      return;
    }
    case B_umin: case B_umax: case B_smin: case B_smax: {
      unsigned n = ci.retN, w = ci.retW;
      std::vector<Val> out;
      for (unsigned i = 0; i < n; i++) {
        Val x = a[i], y = a[n + i];
        unsigned p = id == B_umin ? CmpInst::ICMP_ULT : id == B_umax ? CmpInst::ICMP_UGT : id == B_smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(p, w, x, y);
        if (!c.e) out.push_back(c.c ? x : y);
        else out.push_back(fromE(P.ite(c.e, toE(x, w), toE(y, w))));
      }
      for (unsigned i = 0; i < n; i++) set(d.dst + i, out[i]);
      return;
    }
    case B_abs: {
      unsigned w = ci.retW;
      Val neg = binop(Instruction::Sub, w, mkc(0, w), a[0]);
      Val c = icmp(CmpInst::ICMP_SLT, w, a[0], mkc(0, w));
      if (!c.e) ret(c.c ? neg : a[0]); else ret(fromE(P.ite(c.e, toE(neg, w), toE(a[0], w))));
      return;
    }
    case B_expect: ret(a.at(0)); return;
    case B_objsize: retc(~0ull); return;
    case B_isconst: retc(0); return;
    case B_fshl: case B_fshr: {
      unsigned w = ci.retW;
      uint64_t sh = c64(2) % w;
      if (id == B_fshr) sh = (w - sh) % w;
      if (sh == 0) { ret(id == B_fshl || true ? a[id == B_fshl ? 0 : 1] : a[0]); return; }
      Val l = binop(Instruction::Shl, w, a[0], mkc(sh, w)), r = binop(Instruction::LShr, w, a[1], mkc(w - sh, w));
      ret(binop(Instruction::Or, w, l, r));
      return;
    }
    case B_ovf: {
      unsigned w = ci.widths[0];
      if (w > 63 && w != 64) unsupported("overflow width");
      auto iid = cast<IntrinsicInst>(ci.cb)->getIntrinsicID();
      unsigned W = w * 2;
      bool sg = iid == Intrinsic::sadd_with_overflow || iid == Intrinsic::ssub_with_overflow || iid == Intrinsic::smul_with_overflow;
      const Expr *x = toE(a[0], w), *y = toE(a[1], w);
      const Expr *X = sg ? P.sext(x, W) : P.zext(x, W), *Y = sg ? P.sext(y, W) : P.zext(y, W);
      EKind k = (iid == Intrinsic::uadd_with_overflow || iid == Intrinsic::sadd_with_overflow) ? EAdd : (iid == Intrinsic::usub_with_overflow || iid == Intrinsic::ssub_with_overflow) ? ESub : EMul;
      const Expr *r = P.bin(k, X, Y);
      const Expr *lo = P.extract(r, 0, w);
      const Expr *ok = P.bin(EEq, r, sg ? P.sext(lo, W) : P.zext(lo, W));
      set(d.dst, fromE(lo));
      set(d.dst + 1, fromE(P.lnot(ok)));
      return;
    }
    case B_sat: {
      unsigned w = ci.retW;
      auto iid = cast<IntrinsicInst>(ci.cb)->getIntrinsicID();
      if (ci.retN != 1) unsupported("vector saturating op");
      if (iid == Intrinsic::usub_sat) {
        Val c = icmp(CmpInst::ICMP_UGT, w, a[0], a[1]), r = binop(Instruction::Sub, w, a[0], a[1]);
        if (!c.e) ret(c.c ? r : mkc(0, w)); else ret(fromE(P.ite(c.e, toE(r, w), P.con(0, w))));
      } else {
        Val r = binop(Instruction::Add, w, a[0], a[1]);
        Val c = icmp(CmpInst::ICMP_ULT, w, r, a[0]);
        if (!c.e) ret(c.c ? mkc(maskw(w), w) : r); else ret(fromE(P.ite(c.e, P.con(maskw(w), w), toE(r, w))));
      }
      return;
    }
    case B_stacksave: retc(0); return;
    case B_va_start: {
      // x86-64 va_list: gp_offset=48, fp_offset=176 (register area exhausted), overflow area = va area
      uint64_t p = c64(0);
      Val pv; pv.c = p;
      store(pv, 32, mkc(48, 32), 0);
      store(pv, 32, mkc(176, 32), 4);
      Val v; v.c = s->fr.back().va;
      store(pv, 64, v, 8);
      store(pv, 64, mkc(0, 64), 16);
      return;
    }
    case B_va_copy: copyMem(c64(0), c64(1), 24); return;
    default: unsupported("call to unmodelled function " + ci.name + " at " + locOf(cur));
  }
}

void Engine::run(State *init) {
  s = init;
  uint64_t tick = 0;
  while (true) {
    if (!s) {
      if (stack.empty()) break;
      s = stack.back();
      stack.pop_back();
    }
    bool over = false;
    try {
      while (!s->fr.empty()) {
        step();
        if ((++tick & 0x3fff) == 0) {
          if (now() - T0 > opt.maxTime) { incomplete("time limit"); over = true; break; }
          if ((tick & 0xfffff) == 0) {
            std::ifstream st("/proc/self/statm");
            uint64_t a = 0, rss = 0;
            st >> a >> rss;
            if (rss / 256 > opt.maxMem) { incomplete("memory limit"); over = true; break; }
          }
        }
      }
      if (over) break;
      finishPath();
    } catch (PathDone &) { finishPath(); }
    catch (PathEnd &) { R.steps += s->steps; }
    catch (EngineError &e) {
      R.steps += s->steps;
      std::string m = e.msg + " [" + locOf(cur) + "]";
      bool dup = false;
      for (auto &x : R.errors) if (x == m) dup = true;
      if (!dup) R.errors.push_back(m);
      if (R.errors.size() > 10 || !opt.keepGoing) stopAll = true;
    }
    delete s;
    s = nullptr;
    if (stopAll) break;
    if (R.paths >= opt.maxPaths && !stack.empty()) { incomplete("path limit"); break; }
    if (now() - T0 > opt.maxTime && !stack.empty()) { incomplete("time limit"); break; }
  }
}
