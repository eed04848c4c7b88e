// lcsym: symbolic executor for LLVM IR (KLEE style) used to decide the properties in /verif.
#include <cmath>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "state.h"

using namespace llvm;

static ExprPool P;
static Solver *S;
static Module *M;
static const DataLayout *DL;

// ---------------------------------------------------------------- options
struct Options {
  std::string bc, out, replayDir;
  std::map<std::string, std::string> params;
  std::map<std::string, std::string> repl;
  double maxTime = 1e9;
  uint64_t maxPaths = ~0ull, maxSteps = 20000000;
  uint64_t maxForkValues = 400;
  uint64_t samples = 8;
  bool showUninit = false;
  uint64_t maxMem = 6000;  // MB
  int workers = 1;
  bool verbose = false, prof = false, keepGoing = false;
  uint64_t seed = 1;
} opt;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;

// ---------------------------------------------------------------- decoded program
enum Op : uint16_t {
  OBin, OICmp, OFBin, OFCmp, OCast, OLoad, OStore, OGep, OSelect, OBr, OCondBr, OSwitch, ORet, OCall, OAlloca,
  OMov, OFNeg, OUnreachable, OVecBin, OVecCmp, OVecCast, OShuffle, OExtElt, OInsElt, OResume, OVecSel, OCopyAgg
};
struct Leaf { uint32_t off; uint16_t w; uint8_t fp; };
struct GepIdx { int32_t r; int64_t scale; uint8_t w; };
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct CallInfo {
  Fn *fn = nullptr;          // direct callee with a body
  int builtin = -1;
  int32_t callee = 0;        // indirect operand
  std::vector<int32_t> args; // flattened operands
  std::vector<uint16_t> widths;
  std::vector<std::pair<int, uint32_t>> byval;  // (arg leaf index, size)
  std::string name;
  int retW = 0, retN = 0;
  int normal = -1, unwind = -1;  // invoke edges
  const CallBase *cb = nullptr;
};
struct DInst {
  uint16_t op;
  uint16_t sub = 0;
  uint16_t w = 0, w2 = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint32_t x = 0, y = 0;
  const Instruction *I = nullptr;
};
struct Fn {
  std::string name;
  Function *F = nullptr;
  bool decoded = false, executed = false;
  int8_t model = -1;  // part of the library models or the harness
  uint32_t nregs = 0;
  std::vector<int32_t> argRegs;
  std::vector<uint32_t> argLeaf;
  std::vector<DInst> code;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls;
  std::vector<std::vector<GepIdx>> geps;
  std::vector<std::vector<Leaf>> leaves;
  std::vector<std::vector<std::pair<uint64_t, uint32_t>>> switches;
  std::vector<std::vector<int32_t>> oplists;
};
static std::unordered_map<const Function *, Fn *> fns;
static std::vector<Fn *> fnByIdx;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static const uint64_t FNBASE = 0x70000000ull;

static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  const DebugLoc &d = I->getDebugLoc();
  std::string s = I->getFunction()->getName().str();
  if (d) {
    auto *sc = cast<DIScope>(d.getScope());
    s += " (" + sc->getFilename().str() + ":" + std::to_string(d.getLine()) + ")";
  }
  return s;
}

struct EngineError { std::string msg; };
[[noreturn]] static void unsupported(const std::string &m) { throw EngineError{m}; }

static void leavesOf(Type *t, uint32_t off, std::vector<Leaf> &out) {
  if (t->isIntegerTy()) { out.push_back({off, (uint16_t)t->getIntegerBitWidth(), 0}); return; }
  if (t->isPointerTy()) { out.push_back({off, 64, 0}); return; }
  if (t->isFloatTy()) { out.push_back({off, 32, 1}); return; }
  if (t->isDoubleTy()) { out.push_back({off, 64, 1}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({off, 80, 1}); return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * es, out);
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeAllocSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), off + i * es, out);
    return;
  }
  if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
  std::string s; raw_string_ostream os(s); t->print(os);
  unsupported("type " + s);
}
static std::vector<Leaf> leavesOf(Type *t) { std::vector<Leaf> v; leavesOf(t, 0, v); return v; }

static Val mkc(u128 v, unsigned w) {
  Val r;
  if (w <= 64) r.c = (uint64_t)(v & maskw(w));
  else r.e = P.con(v, w);
  return r;
}
static const Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : P.con(v.c, w); }
static Val fromE(const Expr *e) {
  Val r;
  if (e->isConst() && e->w <= 64) r.c = e->lo;
  else r.e = e;
  return r;
}

// constants -> flattened values
static uint64_t constAddr(const Constant *c);
static void constVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    const APInt &a = ci->getValue();
    unsigned w = a.getBitWidth();
    u128 v = a.getRawData()[0];
    if (w > 64) v |= (u128)a.getRawData()[1] << 64;
    if (w > 128) unsupported("wide int constant");
    out.push_back(mkc(v, w));
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    u128 v = a.getRawData()[0];
    if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
    out.push_back(mkc(v, a.getBitWidth()));
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(Val()); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    for (auto &l : leavesOf(t)) out.push_back(mkc(0, l.w));
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out);
    return;
  }
  Val v;
  v.c = constAddr(c);
  auto l = leavesOf(t);
  if (l.size() == 1 && l[0].w < 64) v.c &= (uint64_t)maskw(l[0].w);
  out.push_back(v);
}
static Fn *fnOf(const Function *F);
static uint64_t fnAddr(const Function *F);
static uint64_t constAddr(const Constant *c) {
  if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) unsupported("unallocated global " + g->getName().str());
    return it->second;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getRawData()[0];
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) unsupported("const gep");
        return constAddr(ce->getOperand(0)) + off.getSExtValue();
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        return constAddr(ce->getOperand(0));
      case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
      case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
      case Instruction::Trunc: return constAddr(ce->getOperand(0));
      default: break;
    }
    unsupported(std::string("constant expr ") + ce->getOpcodeName());
  }
  unsupported("constant kind");
}

#include "builtins.h"

struct Decoder {
  Fn &f;
  std::unordered_map<const Value *, int32_t> reg;
  std::unordered_map<const Constant *, int32_t> cmap;
  std::unordered_map<const BasicBlock *, uint32_t> bstart;
  explicit Decoder(Fn &f) : f(f) {}
  int32_t opnd(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cmap.find(c);
      if (it != cmap.end()) return it->second;
      int32_t idx = f.consts.size();
      constVals(c, f.consts);
      if ((size_t)idx == f.consts.size()) f.consts.push_back(Val());
      return cmap[c] = ~idx;
    }
    auto it = reg.find(v);
    if (it == reg.end()) unsupported("operand without register");
    return it->second;
  }
  static int32_t nth(int32_t o, int k) { return o >= 0 ? o + k : ~(~o + k); }
  unsigned nleaf(Type *t) { return leavesOf(t).size(); }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.target = 0;
    for (auto &phi : to->phis()) {
      int32_t d = reg[&phi], s = opnd(phi.getIncomingValueForBlock(from));
      unsigned n = nleaf(phi.getType());
      for (unsigned i = 0; i < n; i++) e.copies.push_back({nth(d, i), nth(s, i)});
    }
    f.edges.push_back(e);
    edgeTo.push_back(to);
    return f.edges.size() - 1;
  }
  std::vector<const BasicBlock *> edgeTo;
  void run() {
    Function *F = f.F;
    uint32_t n = 0;
    for (auto &a : F->args()) {
      reg[&a] = n;
      unsigned k = nleaf(a.getType());
      for (unsigned i = 0; i < k; i++) f.argRegs.push_back(n + i);
      n += k;
    }
    for (auto &bb : *F)
      for (auto &I : bb)
        if (!I.getType()->isVoidTy()) {
          reg[&I] = n;
          unsigned k;
          k = nleaf(I.getType());
          n += k ? k : 1;
        }
    f.nregs = n;
    for (auto &bb : *F) {
      bstart[&bb] = f.code.size();
      for (auto &I : bb) inst(I, bb);
    }
    for (size_t i = 0; i < f.edges.size(); i++) f.edges[i].target = bstart[edgeTo[i]];
    f.decoded = true;
  }
  void inst(Instruction &I, BasicBlock &bb) {
    DInst d;
    d.I = &I;
    d.op = 0xffff;
    if (!I.getType()->isVoidTy()) d.dst = reg[&I];
    Type *t = I.getType();
    if (isa<PHINode>(I)) return;
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      bool vec = t->isVectorTy();
      Type *st = t->getScalarType();
      d.sub = bo->getOpcode();
      d.w = st->isFloatTy() ? 32 : st->isDoubleTy() ? 64 : st->isX86_FP80Ty() ? 80 : st->getIntegerBitWidth();
      d.a = opnd(bo->getOperand(0));
      d.b = opnd(bo->getOperand(1));
      d.op = st->isFloatingPointTy() ? OFBin : OBin;
      int cnt = vec ? nleaf(t) : 1;
      for (int i = 0; i < cnt; i++) {
        DInst e = d;
        e.dst = d.dst + i; e.a = nth(d.a, i); e.b = nth(d.b, i);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *c = dyn_cast<CmpInst>(&I)) {
      bool vec = t->isVectorTy();
      Type *st = c->getOperand(0)->getType()->getScalarType();
      d.sub = c->getPredicate();
      d.op = isa<ICmpInst>(c) ? OICmp : OFCmp;
      d.w = st->isPointerTy() ? 64 : st->isFloatTy() ? 32 : st->isDoubleTy() ? 64 : st->isX86_FP80Ty() ? 80 : st->getIntegerBitWidth();
      d.a = opnd(c->getOperand(0));
      d.b = opnd(c->getOperand(1));
      int cnt = vec ? nleaf(t) : 1;
      for (int i = 0; i < cnt; i++) {
        DInst e = d;
        e.dst = d.dst + i; e.a = nth(d.a, i); e.b = nth(d.b, i);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *c = dyn_cast<CastInst>(&I)) {
      Type *s = c->getSrcTy(), *dt = c->getDestTy();
      d.a = opnd(c->getOperand(0));
      auto sl = leavesOf(s), dl = leavesOf(dt);
      if (sl.size() != dl.size()) {
        // bitcast between vector and scalar
        if (c->getOpcode() != Instruction::BitCast) unsupported("vector cast");
        d.op = OVecCast;
        d.x = f.leaves.size();
        f.leaves.push_back(sl);
        f.leaves.push_back(dl);
        f.code.push_back(d);
        return;
      }
      for (size_t i = 0; i < sl.size(); i++) {
        DInst e = d;
        e.op = OCast;
        e.sub = c->getOpcode();
        e.w = dl[i].w;
        e.w2 = sl[i].w;
        e.dst = d.dst + i;
        e.a = nth(d.a, i);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *l = dyn_cast<LoadInst>(&I)) {
      d.op = OLoad;
      d.a = opnd(l->getPointerOperand());
      d.x = f.leaves.size();
      f.leaves.push_back(leavesOf(t));
      f.code.push_back(d);
      return;
    }
    if (auto *s = dyn_cast<StoreInst>(&I)) {
      d.op = OStore;
      d.a = opnd(s->getPointerOperand());
      d.b = opnd(s->getValueOperand());
      d.x = f.leaves.size();
      f.leaves.push_back(leavesOf(s->getValueOperand()->getType()));
      f.code.push_back(d);
      return;
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (t->isVectorTy()) unsupported("vector gep");
      d.op = OGep;
      d.a = opnd(g->getPointerOperand());
      int64_t off = 0;
      std::vector<GepIdx> idx;
      for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        Value *op = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) {
          off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
        } else {
          int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(op)) off += sc * ci->getSExtValue();
          else idx.push_back({opnd(op), sc, (uint8_t)op->getType()->getIntegerBitWidth()});
        }
      }
      std::vector<Val> ov{mkc((u128)(uint64_t)off, 64)};
      d.b = ~(int32_t)f.consts.size();
      f.consts.push_back(ov[0]);
      d.x = f.geps.size();
      f.geps.push_back(idx);
      f.code.push_back(d);
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(&I)) {
      auto ls = leavesOf(t);
      bool vecc = s->getCondition()->getType()->isVectorTy();
      d.op = OSelect;
      d.a = opnd(s->getCondition());
      d.b = opnd(s->getTrueValue());
      d.c = opnd(s->getFalseValue());
      for (size_t i = 0; i < ls.size(); i++) {
        DInst e = d;
        e.a = vecc ? nth(d.a, i) : d.a;
        e.b = nth(d.b, i);
        e.c = nth(d.c, i);
        e.dst = d.dst + i;
        e.w = ls[i].w;
        e.sub = t->isPointerTy();
        f.code.push_back(e);
      }
      return;
    }
    if (auto *br = dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) { d.op = OBr; d.x = edge(&bb, br->getSuccessor(0)); }
      else {
        d.op = OCondBr;
        d.a = opnd(br->getCondition());
        d.x = edge(&bb, br->getSuccessor(0));
        d.y = edge(&bb, br->getSuccessor(1));
      }
      f.code.push_back(d);
      return;
    }
    if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      d.op = OSwitch;
      d.a = opnd(sw->getCondition());
      d.w = sw->getCondition()->getType()->getIntegerBitWidth();
      d.x = edge(&bb, sw->getDefaultDest());
      std::vector<std::pair<uint64_t, uint32_t>> cs;
      for (auto &c : sw->cases()) cs.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
      d.y = f.switches.size();
      f.switches.push_back(cs);
      f.code.push_back(d);
      return;
    }
    if (auto *r = dyn_cast<ReturnInst>(&I)) {
      d.op = ORet;
      if (r->getReturnValue()) { d.a = opnd(r->getReturnValue()); d.x = nleaf(r->getReturnValue()->getType()); }
      else d.x = 0;
      f.code.push_back(d);
      return;
    }
    if (isa<UnreachableInst>(I)) { d.op = OUnreachable; f.code.push_back(d); return; }
    if (isa<ResumeInst>(I)) { d.op = OResume; f.code.push_back(d); return; }
    if (isa<LandingPadInst>(I)) { return; }
    if (auto *al = dyn_cast<AllocaInst>(&I)) {
      d.op = OAlloca;
      d.x = DL->getTypeAllocSize(al->getAllocatedType());
      d.a = opnd(al->getArraySize());
      d.w = al->getArraySize()->getType()->getIntegerBitWidth();
      f.code.push_back(d);
      return;
    }
    if (auto *fr = dyn_cast<FreezeInst>(&I)) { movN(d, opnd(fr->getOperand(0)), nleaf(t)); return; }
    if (auto *un = dyn_cast<UnaryOperator>(&I)) {
      auto ls = leavesOf(t);
      d.a = opnd(un->getOperand(0));
      for (size_t i = 0; i < ls.size(); i++) { DInst e = d; e.op = OFNeg; e.w = ls[i].w; e.a = nth(d.a, i); e.dst = d.dst + i; f.code.push_back(e); }
      return;
    }
    if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
      int32_t a = opnd(ev->getAggregateOperand());
      movN(d, nth(a, aggOff(ev->getAggregateOperand()->getType(), ev->getIndices())), nleaf(t));
      return;
    }
    if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
      int32_t a = opnd(iv->getAggregateOperand()), b = opnd(iv->getInsertedValueOperand());
      unsigned n = nleaf(t), off = aggOff(t, iv->getIndices()), k = nleaf(iv->getInsertedValueOperand()->getType());
      for (unsigned i = 0; i < n; i++) {
        DInst e = d; e.op = OMov; e.dst = d.dst + i;
        e.a = (i >= off && i < off + k) ? nth(b, i - off) : nth(a, i);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
      auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand());
      if (!ci) unsupported("variable extractelement");
      unsigned k = nleaf(t);
      movN(d, nth(opnd(ee->getVectorOperand()), ci->getZExtValue() * k), k);
      return;
    }
    if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
      auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2));
      if (!ci) unsupported("variable insertelement");
      int32_t a = opnd(ie->getOperand(0)), b = opnd(ie->getOperand(1));
      unsigned n = nleaf(t);
      for (unsigned i = 0; i < n; i++) {
        DInst e = d; e.op = OMov; e.dst = d.dst + i; e.a = i == ci->getZExtValue() ? b : nth(a, i);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
      int32_t a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1));
      unsigned n0 = nleaf(sv->getOperand(0)->getType());
      auto mask = sv->getShuffleMask();
      int32_t z = opnd(ConstantInt::get(Type::getInt64Ty(I.getContext()), 0));
      for (unsigned i = 0; i < mask.size(); i++) {
        DInst e = d; e.op = OMov; e.dst = d.dst + i;
        e.a = mask[i] < 0 ? z : (unsigned)mask[i] < n0 ? nth(a, mask[i]) : nth(b, mask[i] - n0);
        f.code.push_back(e);
      }
      return;
    }
    if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
      // executed as load, op, store
      DInst l = d;
      l.op = OLoad; l.a = opnd(rmw->getPointerOperand()); l.x = f.leaves.size();
      f.leaves.push_back(leavesOf(t));
      f.code.push_back(l);
      int32_t tmp = f.nregs++;
      DInst b = d;
      unsigned w = leavesOf(t)[0].w;
      int32_t val = opnd(rmw->getValOperand());
      b.op = OBin; b.w = w; b.dst = tmp; b.a = d.dst; b.b = val;
      switch (rmw->getOperation()) {
        case AtomicRMWInst::Add: b.sub = Instruction::Add; break;
        case AtomicRMWInst::Sub: b.sub = Instruction::Sub; break;
        case AtomicRMWInst::Or: b.sub = Instruction::Or; break;
        case AtomicRMWInst::And: b.sub = Instruction::And; break;
        case AtomicRMWInst::Xchg: b.op = OMov; b.a = val; break;
        default: unsupported("atomicrmw op");
      }
      f.code.push_back(b);
      DInst s = d;
      s.op = OStore; s.dst = -1; s.a = l.a; s.b = tmp; s.x = l.x;
      f.code.push_back(s);
      return;
    }
    if (isa<FenceInst>(I)) return;
    if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
      // result {old, success}: load; cmp; select; store
      auto ls = leavesOf(cx->getCompareOperand()->getType());
      DInst l = d; l.op = OLoad; l.a = opnd(cx->getPointerOperand()); l.x = f.leaves.size();
      f.leaves.push_back(ls); f.code.push_back(l);
      DInst c = d; c.op = OICmp; c.sub = CmpInst::ICMP_EQ; c.w = ls[0].w; c.dst = d.dst + 1; c.a = d.dst; c.b = opnd(cx->getCompareOperand()); f.code.push_back(c);
      int32_t tmp = f.nregs++;
      DInst s = d; s.op = OSelect; s.w = ls[0].w; s.dst = tmp; s.a = d.dst + 1; s.b = opnd(cx->getNewValOperand()); s.c = d.dst; f.code.push_back(s);
      DInst st = d; st.op = OStore; st.dst = -1; st.a = l.a; st.b = tmp; st.x = l.x; f.code.push_back(st);
      return;
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) { call(*cb, d, bb); return; }
    if (auto *va = dyn_cast<VAArgInst>(&I)) { (void)va; unsupported("va_arg"); }
    std::string s; raw_string_ostream os(s); I.print(os);
    unsupported("instruction " + s);
  }
  void movN(DInst &d, int32_t src, unsigned n) {
    for (unsigned i = 0; i < n; i++) {
      DInst e = d; e.op = OMov; e.dst = d.dst + i; e.a = nth(src, i);
      f.code.push_back(e);
    }
  }
  unsigned aggOff(Type *t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < i; k++) off += nleaf(st->getElementType(k));
        t = st->getElementType(i);
      } else {
        auto *at = cast<ArrayType>(t);
        off += i * nleaf(at->getElementType());
        t = at->getElementType();
      }
    }
    return off;
  }
  void call(CallBase &cb, DInst d, BasicBlock &bb) {
    CallInfo ci;
    ci.cb = &cb;
    const Value *cv = cb.getCalledOperand()->stripPointerCasts();
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    auto *cf = dyn_cast<Function>(cv);
    auto *inv = dyn_cast<InvokeInst>(&cb);
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::stackrestore:
          return;
        default: break;
      }
    }
    if (cf) {
      ci.name = cf->getName().str();
      auto r = opt.repl.find(ci.name);
      if (r != opt.repl.end()) {
        Function *nf = M->getFunction(r->second);
        if (nf && nf != bb.getParent()) { cf = nf; ci.name = r->second; }
      }
      ci.builtin = builtinOf(cf);
      if (ci.builtin < 0) {
        if (cf->isDeclaration()) ci.builtin = B_unknown;
        else ci.fn = fnOf(cf);
      }
    } else if (isa<InlineAsm>(cb.getCalledOperand())) {
      ci.name = "<asm>";
      ci.builtin = B_asm;
    } else {
      ci.callee = opnd(cb.getCalledOperand());
      ci.name = "<indirect>";
    }
    for (unsigned i = 0; i < cb.arg_size(); i++) {
      Value *a = cb.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      int32_t o = opnd(a);
      auto ls = leavesOf(a->getType());
      if (cb.isByValArgument(i)) ci.byval.push_back({(int)ci.args.size(), (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(i))});
      for (size_t k = 0; k < ls.size(); k++) { ci.args.push_back(nth(o, k)); ci.widths.push_back(ls[k].w); }
    }
    if (!cb.getType()->isVoidTy()) {
      auto ls = leavesOf(cb.getType());
      ci.retN = ls.size();
      ci.retW = ls.empty() ? 0 : ls[0].w;
    }
    if (inv) { ci.normal = edge(&bb, inv->getNormalDest()); }
    d.op = OCall;
    d.x = f.calls.size();
    f.calls.push_back(ci);
    f.code.push_back(d);
  }
};

static Fn *fnOf(const Function *F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  Fn *f = new Fn();
  f->F = const_cast<Function *>(F);
  f->name = F->getName().str();
  fns[F] = f;
  return f;
}
static std::unordered_map<const Function *, uint64_t> fnAddrs;
static uint64_t fnAddr(const Function *F) {
  auto it = fnAddrs.find(F);
  if (it != fnAddrs.end()) return it->second;
  uint64_t a = (FNBASE + fnByIdx.size()) << 32 | OBJ_BASE;
  fnByIdx.push_back(fnOf(F));
  return fnAddrs[F] = a;
}
static void decode(Fn *f) {
  if (f->decoded) return;
  Decoder d(*f);
  try { d.run(); } catch (EngineError &e) { e.msg += " [decoding " + f->name + "]"; throw; }
}

// ---------------------------------------------------------------- results
struct Violation {
  std::string kind, msg, loc;
  std::vector<std::pair<std::string, uint64_t>> values;
  std::vector<std::string> stack;
  bool uninit;
};
struct Sample {
  std::vector<std::pair<std::string, uint64_t>> values;
  std::vector<std::pair<std::string, uint64_t>> obs;
};
struct Results {
  uint64_t paths = 0, infeasible = 0, forks = 0, steps = 0, checks = 0, checksDischarged = 0, maxDepth = 0, abortsOk = 0;
  std::map<std::string, uint64_t> covers, checkLabels;
  std::vector<Violation> viol;
  std::vector<Sample> samples;
  std::set<std::string> functions;
  std::vector<std::string> incomplete, errors;
  std::map<std::string, uint64_t> forkLoc;
};
static Results R;

// ---------------------------------------------------------------- execution
struct PathEnd {};        // path finished (any reason)
struct Fork {};           // current state was replaced by children, pick another

struct Engine {
  std::vector<State *> stack;
  State *s = nullptr;
  const Instruction *cur = nullptr;
  bool stopAll = false;
  uint32_t curPc = 0;

  // ---- helpers
  Fn *fn() { return s->fr.back().fn; }
  Val get(int32_t o) {
    Frame &f = s->fr.back();
    return o >= 0 ? f.regs[o] : f.fn->consts[~o];
  }
  void set(int32_t o, const Val &v) { s->fr.back().regs[o] = v; }

  static uint32_t varFor(uint32_t ordinal, unsigned w) {
    static std::map<std::pair<uint32_t, unsigned>, uint32_t> m;
    auto it = m.find({ordinal, w});
    if (it != m.end()) return it->second;
    uint32_t id = m.size();
    m[{ordinal, w}] = id;
    S->varExprs[id] = P.var(id, w);
    return id;
  }
  const Expr *freshVar(unsigned w) {
    uint32_t id = varFor(s->nvars++, w);
    if (s->model.size() <= id) s->model.resize(id + 1, 0);
    s->model[id] = 0;
    return S->varExprs[id];
  }
  bool known(const Expr *c, bool &val) {
    if (c->isConst()) { val = c->lo; return true; }
    const Expr *n = c->k == EXor && c->b->isConst() ? c->a : nullptr;
    const Expr *neg = nullptr;
    for (size_t i = s->pc.size(); i-- > 0;) {
      if (s->pc[i] == c) { val = true; return true; }
      if (n && s->pc[i] == n) { val = false; return true; }
    }
    neg = P.lnot(c);
    for (size_t i = s->pc.size(); i-- > 0;) if (s->pc[i] == neg) { val = false; return true; }
    return false;
  }
  void addPC(const Expr *c) {
    if (c->isConst()) return;
    if (c->k == EAnd && c->w == 1) { addPC(c->a); addPC(c->b); return; }
    for (auto e : s->pc) if (e == c) return;
    s->pc.push_back(c);
  }
  SatRes sat(const Expr *c, Model &m) {
    SatRes r = S->check(s->pc, c, m);
    if (r == UNKNOWN) { incomplete("solver returned unknown at " + locOf(cur)); }
    return r;
  }
  void incomplete(const std::string &m) {
    for (auto &x : R.incomplete) if (x == m) return;
    if (R.incomplete.size() < 20) R.incomplete.push_back(m);
  }
  // must the condition hold? (true only when proved)
  bool implied(const Expr *c) {
    bool v;
    if (known(c, v)) return v;
    if (!P.eval(c, s->model)) return false;
    Model m = s->model;
    return sat(P.lnot(c), m) == UNSAT;
  }
  State *forkState() {
    State *n = new State(*s);
    R.forks++;
    n->depth++;
    if (opt.prof) R.forkLoc[locOf(cur)]++;
    return n;
  }
  void push(State *n) { stack.push_back(n); }

  // Decide a branch. Returns the value for the current state; the other side is pushed when feasible.
  bool branch(const Expr *c, const std::function<void(State *, bool)> &resume) {
    bool v;
    if (known(c, v)) return v;
    bool cur1 = P.eval(c, s->model) != 0;
    Model m = s->model;
    const Expr *other = cur1 ? P.lnot(c) : c;
    SatRes r = sat(other, m);
    if (r == SAT) {
      State *n = forkState();
      n->model.swap(m);
      State *save = s;
      s = n; addPC(other); s = save;
      resume(n, !cur1);
      push(n);
      s->depth++;
      addPC(cur1 ? c : P.lnot(c));
    }
    // when the other side is infeasible the condition is implied; no constraint needed
    return cur1;
  }
  // Force an expression to a single concrete value, forking over every feasible value.
  // Children re-execute the current instruction.
  uint64_t concretize(const Val &v, unsigned w, const char *why) {
    if (!v.e) return v.c;
    const Expr *e = v.e;
    if (e->isConst()) return e->lo;
    for (auto &p : s->conc) if (p.first == e) return p.second;
    if (!s->uvars.empty() && strstr(why, "address"))
      for (auto u : s->uvars)
        if (std::binary_search(e->vars->v.begin(), e->vars->v.end(), u)) fault("memory", std::string("uninitialised pointer used as ") + why);
    std::vector<std::pair<uint64_t, Model>> vals;
    const Expr *ex = P.tru();
    Model m = s->model;
    uint64_t first = (uint64_t)P.eval(e, m);
    vals.push_back({first, m});
    ex = P.lnot(P.bin(EEq, e, P.con(first, e->w)));
    while (true) {
      Model m2 = s->model;
      SatRes r = sat(ex, m2);
      if (r != SAT) break;
      uint64_t x = (uint64_t)P.eval(e, m2);
      vals.push_back({x, m2});
      ex = P.bin(EAnd, ex, P.lnot(P.bin(EEq, e, P.con(x, e->w))));
      if (vals.size() > opt.maxForkValues) {
        unsupported(std::string("too many values when concretising (") + why + ") at " + locOf(cur));
      }
    }
    State *base = s;
    for (size_t i = 1; i < vals.size(); i++) {
      State *n = forkState();
      n->model = vals[i].second;
      n->fr.back().pc = curPc;
      s = n;
      addPC(P.bin(EEq, e, P.con(vals[i].first, e->w)));
      n->conc.push_back({e, vals[i].first});
      s = base;
      push(n);
    }
    addPC(P.bin(EEq, e, P.con(first, e->w)));
    s->conc.push_back({e, first});
    return first;
  }

  // ---- doubles as bit vectors: exact conversion from integers below 2^53, and IEEE comparison
  std::unordered_map<const Expr *, const Expr *> intParts;
  Val i2d(const Expr *x) {  // x: 64 bits, below 2^53
    if (x->isConst()) { Val v; v.c = frD((double)x->lo); return v; }
    const Expr *m = x, *sh = P.con(0, 64);
    for (int k : {32, 16, 8, 4, 2, 1}) {
      const Expr *small = P.bin(EUlt, m, P.con((u128)1 << (53 - k), 64));
      m = P.ite(small, P.bin(EShl, m, P.con(k, 64)), m);
      sh = P.ite(small, P.bin(EAdd, sh, P.con(k, 64)), sh);
    }
    const Expr *ex = P.bin(EShl, P.bin(ESub, P.con(1075, 64), sh), P.con(52, 64));
    const Expr *r = P.bin(EOr, P.bin(EAnd, m, P.con(((u128)1 << 52) - 1, 64)), ex);
    r = P.ite(P.bin(EEq, x, P.con(0, 64)), P.con(0, 64), r);
    Val v = fromE(r);
    if (v.e) intParts[v.e] = x;
    return v;
  }
  const Expr *intOf(const Val &v) {
    if (v.e && !v.e->isConst()) { auto it = intParts.find(v.e); return it == intParts.end() ? nullptr : it->second; }
    double x = asD(v.e ? v.e->lo : v.c);
    if (x >= 0 && x < 9007199254740992.0 && x == floor(x)) return P.con((uint64_t)x, 64);
    return nullptr;
  }
  Val fcmpSym(unsigned pred, const Val &a, const Val &b) {
    const Expr *un, *lt, *gt, *eq;
    const Expr *x = intOf(a), *y = intOf(b);
    if (x && y) {
      un = P.fls(); lt = P.bin(EUlt, x, y); gt = P.bin(EUlt, y, x); eq = P.bin(EEq, x, y);
    } else {
      x = toE(a, 64); y = toE(b, 64);
      const Expr *top = P.con((u128)1 << 63, 64), *abs = P.con(((u128)1 << 63) - 1, 64), *inf = P.con((u128)0x7ff0000000000000ull, 64), *z = P.con(0, 64);
      auto nan = [&](const Expr *e) { return P.bin(EUlt, inf, P.bin(EAnd, e, abs)); };
      auto key = [&](const Expr *e) { return P.ite(P.bin(EUlt, e, top), P.bin(EXor, e, top), P.bin(EXor, e, P.con(~(u128)0, 64))); };
      un = P.bin(EOr, nan(x), nan(y));
      const Expr *zz = P.bin(EEq, P.bin(EAnd, P.bin(EOr, x, y), abs), z), *ok = P.lnot(un), *ne = P.lnot(zz);
      const Expr *kx = key(x), *ky = key(y);
      lt = P.bin(EAnd, ok, P.bin(EAnd, ne, P.bin(EUlt, kx, ky)));
      gt = P.bin(EAnd, ok, P.bin(EAnd, ne, P.bin(EUlt, ky, kx)));
      eq = P.bin(EAnd, ok, P.bin(EOr, zz, P.bin(EEq, x, y)));
    }
    auto orr = [&](const Expr *p, const Expr *q) { return P.bin(EOr, p, q); };
    const Expr *r;
    switch (pred) {
      case CmpInst::FCMP_FALSE: r = P.fls(); break;
      case CmpInst::FCMP_OEQ: r = eq; break;
      case CmpInst::FCMP_OGT: r = gt; break;
      case CmpInst::FCMP_OGE: r = orr(gt, eq); break;
      case CmpInst::FCMP_OLT: r = lt; break;
      case CmpInst::FCMP_OLE: r = orr(lt, eq); break;
      case CmpInst::FCMP_ONE: r = orr(lt, gt); break;
      case CmpInst::FCMP_ORD: r = P.lnot(un); break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = orr(un, eq); break;
      case CmpInst::FCMP_UGT: r = orr(un, gt); break;
      case CmpInst::FCMP_UGE: r = orr(un, orr(gt, eq)); break;
      case CmpInst::FCMP_ULT: r = orr(un, lt); break;
      case CmpInst::FCMP_ULE: r = orr(un, orr(lt, eq)); break;
      case CmpInst::FCMP_UNE: r = orr(un, orr(lt, gt)); break;
      default: r = P.tru();
    }
    return fromE(r);
  }

  // ---- violations
  std::vector<std::pair<std::string, uint64_t>> inputsUnder(const Model &m) {
    std::vector<std::pair<std::string, uint64_t>> r;
    for (auto &i : s->inputs) r.push_back({i.name, i.lo + (uint64_t)P.eval(i.e, m)});
    return r;
  }
  std::string where() {
    std::string r = locOf(cur);
    for (size_t i = s->fr.size() - 1; i-- > 0;) {
      Frame &f = s->fr[i];
      uint32_t pc = f.pc ? f.pc - 1 : 0;
      r += " < " + locOf(pc < f.fn->code.size() ? f.fn->code[pc].I : nullptr);
    }
    return r;
  }
  void violation(const std::string &kind, const std::string &msg, const Model &m) {
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.loc = locOf(cur);
    v.values = inputsUnder(m);
    v.uninit = s->usedUninit;
    for (size_t i = s->fr.size(); i-- > 0 && v.stack.size() < 12;) {
      Frame &f = s->fr[i];
      uint32_t pc = f.pc ? f.pc - 1 : 0;
      v.stack.push_back(locOf(i + 1 == s->fr.size() ? cur : (pc < f.fn->code.size() ? f.fn->code[pc].I : nullptr)));
    }
    R.viol.push_back(v);
    if (!opt.keepGoing || R.viol.size() >= 20) stopAll = true;
  }
  [[noreturn]] void fault(const std::string &kind, const std::string &msg) {
    violation(kind, msg, s->model);
    throw PathEnd();
  }

  // ---- memory
  MemObj *locate(uint64_t addr, uint32_t n, uint32_t &id, uint32_t &off, bool write) {
    id = addr >> 32;
    int64_t o = (int64_t)(uint32_t)addr - (int64_t)OBJ_BASE;
    if (addr < 4096 * 16) fault("memory", write ? "null pointer write" : "null pointer read");
    MemObj *m = id ? s->get(id) : nullptr;
    if (!m) {
      if (id >= FNBASE) fault("memory", "access to function address");
      if (id < s->nextObj && id) fault("memory", write ? "write to freed memory" : "read of freed memory");
      fault("memory", write ? "wild pointer write" : "wild pointer read");
    }
    if (o < 0 || (uint64_t)o + n > m->size) {
      char b[200];
      snprintf(b, sizeof b, "out-of-bounds %s of %u bytes at offset %lld of a %u byte object (%s)", write ? "write" : "read", n, (long long)o, m->size, m->site);
      fault("memory", b);
    }
    off = o;
    if (write && m->kind == KConst) fault("memory", "write to constant memory");
    if (s->epoch && m->kind != KConst && !m->tls && n) { track(id, m, off, n, write); return s->get(id); }
    return m;
  }
  // ---- threads: tasks of a pool run one at a time, in any order; a data race between them (or with the main thread) is a
  // violation, so that the other interleavings have the same outcomes
  Tls tls0;
  std::vector<uint32_t> tlsIds;
  void saveTls(Tls &t) {
    Tls x;
    for (auto id : tlsIds) { MemObj *m = s->get(id); m->rc++; x.o.push_back(m); }
    t = x;
  }
  void loadTls(const Tls &t) {
    for (size_t i = 0; i < tlsIds.size(); i++) {
      MemObj *&m = s->ownChunk(tlsIds[i] >> 6)->o[tlsIds[i] & 63];
      t.o[i]->rc++;
      if (--m->rc == 0) delete m;
      m = t.o[i];
    }
  }
  bool inModel() {
    Fn *f = s->fr.back().fn;
    if (f->model < 0) {
      auto *sp = f->F ? f->F->getSubprogram() : nullptr;
      StringRef n = sp ? sp->getFilename() : StringRef("");
      f->model = n.contains("rt_engine.c") || n.contains("lc_common.c") || n.contains("/harness/");
    }
    return f->model == 1;
  }
  void track(uint32_t id, MemObj *m, uint32_t off, uint32_t n, bool write) {
    if (s->thread == 0 && !write) return;                   // reads by the main thread: only the progress counter
    if (m->kind == KGlobal && (m->size == 1 || inModel())) return;  // "already printed" flags, the models' own tables
    MemObj *o = s->own(id);
    if (o->epoch != s->epoch) { o->epoch = s->epoch; o->touch.clear(); }
    bool locked = !s->locks.empty();
    uint8_t me = s->thread ? (uint8_t)(1u << (s->thread - 1)) : 0, others = (uint8_t)~me;
    std::array<Touch, 64> *blk = nullptr;
    for (uint32_t i = off; i < off + n; i++) {
      if (!blk || i % 64 == 0) blk = &o->touch[i / 64];
      Touch &t = (*blk)[i % 64];
      uint8_t bad;
      if (write) bad = (locked ? (t.r | t.w) : (t.r | t.w | t.lr | t.lw)) & others;
      else bad = (locked ? t.w : (t.w | t.lw)) & others;
      if (bad || (s->thread && t.mainw && t.mainw >= s->taskNo))
        fault("race", std::string("data race: two threads touch the same byte of ") + o->site + " without a common lock");
      if (s->thread == 0) t.mainw = (uint8_t)std::min<uint32_t>(s->pushed, 255);
      else if (write) (locked ? t.lw : t.w) |= me;
      else (locked ? t.lr : t.r) |= me;
    }
  }
  void threadOp(unsigned op, uint64_t arg) {
    switch (op) {
      case 0: s->epoch = s->nextEpoch++; s->pushed = s->nthreads = 0; s->tlsOf.clear(); return;  // a pool starts
      case 1: s->pushed++; return;                                                                // a task is queued
      case 2: {                                                                                   // a task starts on thread arg
        saveTls(s->tlsMain);
        s->taskNo = arg >> 16;
        uint32_t th = arg & 0xffff;
        if (th > s->nthreads) { s->nthreads = th; s->tlsOf.resize(th); s->tlsOf[th - 1] = tls0; }
        if (th > 7) unsupported("more than 7 pool threads");
        loadTls(s->tlsOf[th - 1]);
        s->thread = th;
        if (!s->locks.empty()) fault("deadlock", "a task starts while its creator holds a lock");
        return;
      }
      case 3:                                                                                     // it ends
        if (!s->locks.empty()) fault("deadlock", "a task ends without releasing a lock");
        saveTls(s->tlsOf[s->thread - 1]);
        loadTls(s->tlsMain);
        s->thread = 0;
        return;
      default: s->epoch = 0; s->tlsOf.clear(); return;                                            // all tasks have ended
    }
  }
  void lockOp(uint64_t a, bool lock) {
    if (!s->epoch) return;
    auto it = std::find(s->locks.begin(), s->locks.end(), a);
    if (lock) {
      if (it != s->locks.end()) fault("deadlock", "a thread locks a mutex it already holds");
      s->locks.push_back(a);
    } else {
      if (it == s->locks.end()) fault("deadlock", "a mutex is unlocked that is not held");
      s->locks.erase(it);
    }
  }
  Val loadAt(MemObj *m, uint32_t id, uint32_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (m->anyUninit(off, n)) {
      MemObj *o = s->own(id);
      for (unsigned i = off; i < off + n; i++)
        if (o->uninit && o->uninit[i]) { const Expr *fv = freshVar(8); s->uvars.push_back(fv->aux); setCell(o, i, fv); }
      o->setInit(off, n);
      if (opt.showUninit && !s->usedUninit) fprintf(stderr, "uninitialised read: %s\n", where().c_str());
      s->usedUninit = true;
      m = o;
    }
    if (!m->cells.empty()) {
      // binary search
      auto &cs = m->cells;
      size_t lo = 0, hi = cs.size();
      while (lo < hi) { size_t mid = (lo + hi) / 2; if (cs[mid].off + cs[mid].e->w / 8 <= off) lo = mid + 1; else hi = mid; }
      if (lo < cs.size() && cs[lo].off < off + n) {
        if (cs[lo].off == off && cs[lo].e->w == n * 8) return fromE(w == n * 8 ? cs[lo].e : P.extract(cs[lo].e, 0, w));
        const Expr *r = nullptr;
        size_t k = lo;
        for (unsigned i = 0; i < n;) {
          uint32_t p = off + i;
          while (k < cs.size() && cs[k].off + cs[k].e->w / 8 <= p) k++;
          const Expr *piece;
          if (k < cs.size() && cs[k].off <= p) {
            uint32_t skip = p - cs[k].off, avail = cs[k].e->w / 8 - skip;
            uint32_t take = std::min<uint32_t>(avail, n - i);
            piece = P.extract(cs[k].e, skip * 8, take * 8);
            i += take;
          } else {
            uint32_t until = k < cs.size() ? std::min<uint32_t>(cs[k].off, off + n) : off + n;
            uint32_t take = std::min<uint32_t>(until - p, 8);
            uint64_t v = 0;
            m->rdN(p, (uint8_t *)&v, take);
            piece = P.con(v, take * 8);
            i += take;
          }
          r = r ? P.concat(piece, r) : piece;
        }
        return fromE(w == n * 8 ? r : P.extract(r, 0, w));
      }
    }
    if (n <= 8) {
      uint64_t v = 0;
      m->rdN(off, (uint8_t *)&v, n);
      return mkc(v, w);
    }
    u128 v = 0;
    m->rdN(off, (uint8_t *)&v, n);
    return mkc(v, w);
  }
  void clearCells(MemObj *o, uint32_t off, uint32_t n) {
    auto &cs = o->cells;
    if (cs.empty()) return;
    for (size_t i = 0; i < cs.size();) {
      uint32_t a = cs[i].off, b = a + cs[i].e->w / 8;
      if (b <= off) { i++; continue; }
      if (a >= off + n) break;
      const Expr *e = cs[i].e;
      cs.erase(cs.begin() + i);
      size_t at = i;
      if (a < off) { cs.insert(cs.begin() + at, Cell{a, P.extract(e, 0, (off - a) * 8)}); normCell(o, at); at++; i++; }
      if (b > off + n) { cs.insert(cs.begin() + at, Cell{off + n, P.extract(e, (off + n - a) * 8, (b - off - n) * 8)}); normCell(o, at); }
    }
  }
  void normCell(MemObj *, size_t) {}
  void setCell(MemObj *o, uint32_t off, const Expr *e) {
    clearCells(o, off, e->w / 8);
    auto &cs = o->cells;
    size_t i = cs.size();
    while (i > 0 && cs[i - 1].off > off) i--;
    cs.insert(cs.begin() + i, Cell{off, e});
  }
  void storeAt(uint32_t id, uint32_t off, unsigned w, const Val &v) {
    unsigned n = (w + 7) / 8;
    MemObj *o = s->own(id);
    if (o->uninit) o->setInit(off, n);
    if (!v.e || v.e->isConst()) {
      clearCells(o, off, n);
      if (!v.e) o->wrN(off, (const uint8_t *)&v.c, n);
      else { u128 x = v.e->cv(); o->wrN(off, (const uint8_t *)&x, n); }
    } else {
      setCell(o, off, w == n * 8 ? v.e : P.zext(v.e, n * 8));
    }
  }
  Val load(const Val &p, unsigned w, uint32_t delta = 0) {
    uint64_t a = p.e ? 0 : p.c;
    if (p.e) {
      Val r;
      if (symLoad(p.e, w, delta, r)) return r;
      a = concretize(p, 64, "address");
    }
    uint32_t id, off;
    MemObj *m = locate(a + delta, (w + 7) / 8, id, off, false);
    return loadAt(m, id, off, w);
  }
  // symbolic index into one small object: ite chain
  bool symLoad(const Expr *pe, unsigned w, uint32_t delta, Val &out) {
    std::vector<uint64_t> as;
    uint32_t id;
    if (!symAddrs(pe, w, delta, id, as, 300)) return false;
    const Expr *r = nullptr;
    for (uint64_t x : as) {
      uint32_t off = (uint32_t)x - OBJ_BASE + delta;
      MemObj *m = s->get(id);
      Val v = loadAt(m, id, off, w);
      const Expr *e = toE(v, w);
      r = r ? P.ite(P.bin(EEq, pe, P.con(x, 64)), e, r) : e;
    }
    out = fromE(r);
    return true;
  }
  // the same for stores of small values (counters, flags, bytes): every cell that may be meant becomes conditional
  bool symStore(const Expr *pe, unsigned w, uint32_t delta, const Val &v) {
    std::vector<uint64_t> as;
    uint32_t id;
    if (w > 32 || !symAddrs(pe, w, delta, id, as, 64)) return false;
    if (as.size() == 1) return false;
    const Expr *nv = toE(v, w);
    for (uint64_t x : as) {
      uint32_t off = (uint32_t)x - OBJ_BASE + delta;
      Val old = loadAt(s->get(id), id, off, w);
      storeAt(id, off, w, fromE(P.ite(P.bin(EEq, pe, P.con(x, 64)), nv, toE(old, w))));
    }
    return true;
  }
  // all feasible values of an address, when they all lie in one small object
  bool symAddrs(const Expr *pe, unsigned w, uint32_t delta, uint32_t &id, std::vector<uint64_t> &as, size_t max) {
    for (auto &c : s->conc) if (c.first == pe) return false;
    uint64_t a0 = (uint64_t)P.eval(pe, s->model);
    id = a0 >> 32;
    MemObj *m = id ? s->get(id) : nullptr;
    unsigned n = (w + 7) / 8;
    if (!m || m->size > 4096 || w > 64) return false;
    // all feasible addresses in bounds of this object?
    uint64_t lo = addrOf(id), hiAddr = lo + m->size - n - delta;
    if (m->size < n + delta) return false;
    const Expr *in = P.bin(EAnd, P.bin(EUle, P.con(lo, 64), pe), P.bin(EUle, pe, P.con(hiAddr, 64)));
    if (!implied(in)) return false;
    // enumerate feasible addresses
    const Expr *ex = P.tru();
    as.push_back(a0);
    ex = P.lnot(P.bin(EEq, pe, P.con(a0, 64)));
    while (as.size() <= max) {
      Model m2 = s->model;
      if (sat(ex, m2) != SAT) break;
      uint64_t x = (uint64_t)P.eval(pe, m2);
      as.push_back(x);
      ex = P.bin(EAnd, ex, P.lnot(P.bin(EEq, pe, P.con(x, 64))));
    }
    return as.size() <= max;
  }
  void store(const Val &p, unsigned w, const Val &v, uint32_t delta = 0) {
    uint64_t a = concretize(p, 64, "store address");
    uint32_t id, off;
    locate(a + delta, (w + 7) / 8, id, off, true);
    storeAt(id, off, w, v);
  }
  uint64_t alloc(uint64_t size, ObjKind k, bool uninit, const char *site) {
    if (size > (1ull << 31)) unsupported("allocation of " + std::to_string(size) + " bytes at " + locOf(cur));
    uint32_t id = s->add(MemObj::make((uint32_t)size, k, uninit, site));
    return addrOf(id);
  }
  void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    uint32_t di, doff, si, soff;
    MemObj *sm = locate(src, n, si, soff, false);
    locate(dst, n, di, doff, true);
    std::vector<uint8_t> buf(n);
    sm->rdN(soff, buf.data(), n);
    std::vector<Cell> cs;
    for (auto &c : sm->cells) {
      uint32_t a = c.off, b = a + c.e->w / 8;
      if (b <= soff || a >= soff + n) continue;
      uint32_t x = std::max(a, soff), y = std::min<uint32_t>(b, soff + n);
      const Expr *e = P.extract(c.e, (x - a) * 8, (y - x) * 8);
      cs.push_back(Cell{x - soff, e});
    }
    std::vector<uint8_t> un;
    if (sm->anyUninit(soff, n)) un.assign(sm->uninit + soff, sm->uninit + soff + n);
    MemObj *d = s->own(di);
    d->setInit(doff, n);
    clearCells(d, doff, n);
    d->wrN(doff, buf.data(), n);
    for (auto &c : cs) {
      if (c.e->isConst()) { u128 v = c.e->cv(); d->wrN(doff + c.off, (uint8_t *)&v, c.e->w / 8); }
      else setCell(d, doff + c.off, c.e);
    }
    if (!un.empty() && d->size <= 65536) {
      if (!d->uninit) { d->uninit = (uint8_t *)calloc(1, d->size); d->nUninit = 0; }
      for (uint32_t i = 0; i < n; i++) if (un[i] && !d->uninit[doff + i]) { d->uninit[doff + i] = 1; d->nUninit++; }
    }
  }
  std::string cstr(uint64_t a) {  // concrete C string
    std::string r;
    for (;;) {
      Val p; p.c = a++;
      Val v = load(p, 8);
      uint64_t c = concretize(v, 8, "string");
      if (!c) break;
      r.push_back((char)c);
      if (r.size() > 100000) unsupported("unterminated string");
    }
    return r;
  }

  // ---- floating point (concrete)
  static double asD(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
  static uint64_t frD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
  static float asF(uint64_t x) { uint32_t y = x; float d; memcpy(&d, &y, 4); return d; }
  static uint64_t frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
  long double asL(const Val &v) { u128 x = v.e ? v.e->cv() : v.c; long double d = 0; memcpy(&d, &x, 10); return d; }
  Val frL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return mkc(x, 80); }
  long double fpv(const Val &v, unsigned w) {
    if (w == 80) return asL(v);
    uint64_t x = concretize(v, w, "floating point operand");
    return w == 32 ? (long double)asF(x) : (long double)asD(x);
  }

  void jump(uint32_t e) {
    Frame &f = s->fr.back();
    Edge &ed = f.fn->edges[e];
    if (ed.copies.size() == 1) {
      f.regs[ed.copies[0].first] = get(ed.copies[0].second);
    } else if (!ed.copies.empty()) {
      Val tmp[64];
      std::vector<Val> big;
      Val *t = tmp;
      if (ed.copies.size() > 64) { big.resize(ed.copies.size()); t = big.data(); }
      for (size_t i = 0; i < ed.copies.size(); i++) t[i] = get(ed.copies[i].second);
      for (size_t i = 0; i < ed.copies.size(); i++) f.regs[ed.copies[i].first] = t[i];
    }
    f.pc = ed.target;
  }
  static void jumpIn(Engine *E, State *n, uint32_t e) {
    State *save = E->s;
    E->s = n;
    E->jump(e);
    E->s = save;
  }

  void enter(Fn *f, const std::vector<Val> &args, int32_t retDst) {
    decode(f);
    if (!f->executed) {
      f->executed = true;
      std::string file;
      if (auto *sp = f->F->getSubprogram()) file = sp->getFilename().str();
      R.functions.insert(f->name + "|" + file);
    }
    if (s->fr.size() > 2000) fault("hang", "call depth exceeds 2000 (unbounded recursion)");
    Frame nf;
    nf.fn = f;
    nf.retDst = retDst;
    nf.regs.resize(f->nregs);
    if (args.size() < f->argRegs.size()) unsupported("too few arguments for " + f->name);
    for (size_t i = 0; i < f->argRegs.size(); i++) nf.regs[f->argRegs[i]] = args[i];
    s->fr.push_back(std::move(nf));
  }
  void leave(const Val *rv, unsigned n) {
    Frame &f = s->fr.back();
    for (uint32_t id : f.allocas) s->drop(id);
    int32_t d = f.retDst;
    s->fr.pop_back();
    if (s->fr.empty()) return;
    Frame &c = s->fr.back();
    if (c.pc == 0) return;  // constructor returning into lc_main, which has not started
    const DInst &ci = c.fn->code[c.pc - 1];
    for (unsigned i = 0; i < n; i++) if (d >= 0) c.regs[d + i] = rv[i];
    if (ci.op == OCall && c.fn->calls[ci.x].normal >= 0) jump(c.fn->calls[ci.x].normal);
  }

  // does the path or what it observed depend on a byte that was never written? (reading one without using it does not count:
  // optimised code does that, e.g. std::string::capacity of a short string)
  bool dependsOnUninit() {
    if (!s->usedUninit) return false;
    std::vector<uint32_t> u(s->uvars.begin(), s->uvars.end());
    std::sort(u.begin(), u.end());
    auto uses = [&](const Expr *e) {
      for (auto x : e->vars->v) if (std::binary_search(u.begin(), u.end(), (uint32_t)x)) return true;
      return false;
    };
    for (auto e : s->pc) if (uses(e)) return true;
    for (auto &o : s->obs) if (o.v.e && uses(o.v.e)) return true;
    return false;
  }
  void finishPath() {
    R.paths++;
    R.steps += s->steps;
    if (s->depth > R.maxDepth) R.maxDepth = s->depth;
    // reservoir sample for validation against the native build
    static uint64_t rng = opt.seed * 0x9e3779b97f4a7c15ull + 12345;
    if (opt.samples && !dependsOnUninit()) {
      rng = rng * 6364136223846793005ull + 1442695040888963407ull;
      uint64_t k = (rng >> 33) % R.paths;
      size_t slot = R.samples.size();
      bool take = slot < opt.samples;
      if (!take && k < opt.samples) { take = true; slot = k; }
      if (take) {
        Sample sm;
        sm.values = inputsUnder(s->model);
        for (auto &o : s->obs) sm.obs.push_back({o.label, o.v.e ? (uint64_t)P.eval(o.v.e, s->model) : o.v.c});
        if (slot == R.samples.size()) R.samples.push_back(sm);
        else R.samples[slot] = sm;
      }
    }
  }

  void step();
  void run(State *init);
  void execCall(DInst &d, CallInfo &ci);
  void builtin(DInst &d, CallInfo &ci, int id, std::vector<Val> &a);
  Val binop(unsigned opc, unsigned w, const Val &a, const Val &b);
  Val icmp(unsigned pred, unsigned w, const Val &a, const Val &b);
};

Val Engine::binop(unsigned opc, unsigned w, const Val &a, const Val &b) {
  EKind k;
  switch (opc) {
    case Instruction::Add: k = EAdd; break;
    case Instruction::Sub: k = ESub; break;
    case Instruction::Mul: k = EMul; break;
    case Instruction::UDiv: k = EUDiv; break;
    case Instruction::SDiv: k = ESDiv; break;
    case Instruction::URem: k = EURem; break;
    case Instruction::SRem: k = ESRem; break;
    case Instruction::And: k = EAnd; break;
    case Instruction::Or: k = EOr; break;
    case Instruction::Xor: k = EXor; break;
    case Instruction::Shl: k = EShl; break;
    case Instruction::LShr: k = ELShr; break;
    case Instruction::AShr: k = EAShr; break;
    default: unsupported("binop");
  }
  if (k == EUDiv || k == ESDiv || k == EURem || k == ESRem) {
    if (!b.e) { if (b.c == 0) fault("arith", "division by zero"); }
    else {
      const Expr *z = P.bin(EEq, b.e, P.con(0, w));
      bool v;
      if (!known(z, v)) {
        if (P.eval(z, s->model)) fault("arith", "division by zero");
        Model m = s->model;
        if (sat(z, m) == SAT) { Model keep = s->model; s->model = m; violation("arith", "division by zero", m); s->model = keep; addPC(P.lnot(z)); if (stopAll) throw PathEnd(); }
      } else if (v) fault("arith", "division by zero");
    }
  }
  if (!a.e && !b.e) {
    Val r;
    if (w == 64) {
      switch (k) {
        case EAdd: r.c = a.c + b.c; return r;
        case ESub: r.c = a.c - b.c; return r;
        case EMul: r.c = a.c * b.c; return r;
        case EAnd: r.c = a.c & b.c; return r;
        case EOr: r.c = a.c | b.c; return r;
        case EXor: r.c = a.c ^ b.c; return r;
        default: break;
      }
    }
    r.c = (uint64_t)ExprPool::fold(k, w, a.c, b.c);
    return r;
  }
  return fromE(P.bin(k, toE(a, w), toE(b, w)));
}
Val Engine::icmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    bool r;
    int64_t sx = (int64_t)sextw(x, w), sy = (int64_t)sextw(y, w);
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      case CmpInst::ICMP_SLE: r = sx <= sy; break;
      default: unsupported("icmp");
    }
    Val v; v.c = r; return v;
  }
  const Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(P.bin(EEq, x, y));
    case CmpInst::ICMP_NE: return fromE(P.lnot(P.bin(EEq, x, y)));
    case CmpInst::ICMP_UGT: return fromE(P.bin(EUlt, y, x));
    case CmpInst::ICMP_UGE: return fromE(P.bin(EUle, y, x));
    case CmpInst::ICMP_ULT: return fromE(P.bin(EUlt, x, y));
    case CmpInst::ICMP_ULE: return fromE(P.bin(EUle, x, y));
    case CmpInst::ICMP_SGT: return fromE(P.bin(ESlt, y, x));
    case CmpInst::ICMP_SGE: return fromE(P.bin(ESle, y, x));
    case CmpInst::ICMP_SLT: return fromE(P.bin(ESlt, x, y));
    case CmpInst::ICMP_SLE: return fromE(P.bin(ESle, x, y));
  }
  unsupported("icmp");
}

#include "exec.h"

// ---------------------------------------------------------------- module setup
static void initGlobal(State *s, const Constant *c, MemObj *o, uint32_t off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    o->wrN(off, (const uint8_t *)raw.data(), raw.size());
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, ca->getOperand(i), o, off + sl->getElementOffset(i));
    } else {
      Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, ca->getOperand(i), o, off + i * es);
    }
    return;
  }
  std::vector<Val> v;
  constVals(c, v);
  auto ls = leavesOf(t);
  u128 x = v[0].e ? v[0].e->cv() : v[0].c;
  o->wrN(off, (const uint8_t *)&x, (ls[0].w + 7) / 8);
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void writeResults(const std::string &path) {
  std::ofstream o(path);
  o << "{\n\"paths\":" << R.paths << ",\"forks\":" << R.forks << ",\"steps\":" << R.steps << ",\"checks\":" << R.checks
    << ",\"checks_discharged\":" << R.checksDischarged << ",\"max_depth\":" << R.maxDepth << ",\"expected_aborts\":" << R.abortsOk
    << ",\"pruned\":" << R.infeasible << ",\"queries\":" << S->st.queries << ",\"cache_hits\":" << S->st.cacheHits << ",\"z3_calls\":" << S->st.z3calls
    << ",\"z3_time\":" << S->st.z3time << ",\"unknowns\":" << S->st.unknowns << ",\"wall\":" << now() - T0 << ",\n\"covers\":{";
  bool f = true;
  for (auto &c : R.covers) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
  o << "},\n\"check_labels\":{";
  f = true;
  for (auto &c : R.checkLabels) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
  o << "},\n\"incomplete\":[";
  f = true;
  for (auto &c : R.incomplete) { o << (f ? "" : ",") << jstr(c); f = false; }
  o << "],\n\"errors\":[";
  f = true;
  for (auto &c : R.errors) { o << (f ? "" : ",") << jstr(c); f = false; }
  o << "],\n\"functions\":[";
  f = true;
  for (auto &c : R.functions) { o << (f ? "" : ",") << jstr(c); f = false; }
  o << "],\n\"fork_locations\":{";
  f = true;
  for (auto &c : R.forkLoc) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
  auto kv = [&](const std::vector<std::pair<std::string, uint64_t>> &v) {
    o << "[";
    bool g = true;
    for (auto &p : v) { o << (g ? "" : ",") << "[" << jstr(p.first) << "," << p.second << "]"; g = false; }
    o << "]";
  };
  o << "},\n\"violations\":[";
  f = true;
  for (auto &v : R.viol) {
    o << (f ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"loc\":" << jstr(v.loc) << ",\"uninit\":" << (v.uninit ? "true" : "false") << ",\"stack\":[";
    bool g = true;
    for (auto &x : v.stack) { o << (g ? "" : ",") << jstr(x); g = false; }
    o << "],\"values\":";
    kv(v.values);
    o << "}\n";
    f = false;
  }
  o << "],\n\"samples\":[";
  f = true;
  for (auto &v : R.samples) {
    o << (f ? "" : ",") << "{\"values\":";
    kv(v.values);
    o << ",\"obs\":";
    kv(v.obs);
    o << "}\n";
    f = false;
  }
  o << "]}\n";
}

int main(int argc, char **argv) {
  T0 = now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--out=", 0) == 0) opt.out = val("--out=");
    else if (a.rfind("--param=", 0) == 0) { std::string v = val("--param="); auto p = v.find('='); opt.params[v.substr(0, p)] = p == std::string::npos ? "" : v.substr(p + 1); }
    else if (a.rfind("--replace=", 0) == 0) { std::string v = val("--replace="); auto p = v.find(':'); opt.repl[v.substr(0, p)] = v.substr(p + 1); }
    else if (a.rfind("--max-time=", 0) == 0) opt.maxTime = atof(val("--max-time=").c_str());
    else if (a.rfind("--max-paths=", 0) == 0) opt.maxPaths = atoll(val("--max-paths=").c_str());
    else if (a.rfind("--max-steps=", 0) == 0) opt.maxSteps = atoll(val("--max-steps=").c_str());
    else if (a.rfind("--max-fork-values=", 0) == 0) opt.maxForkValues = atoll(val("--max-fork-values=").c_str());
    else if (a.rfind("--samples=", 0) == 0) opt.samples = atoll(val("--samples=").c_str());
    else if (a.rfind("--seed=", 0) == 0) opt.seed = atoll(val("--seed=").c_str());
    else if (a == "--verbose") opt.verbose = true;
    else if (a == "--prof") opt.prof = true;
    else if (a == "--keep-going") opt.keepGoing = true;
    else if (a == "--show-uninit") opt.showUninit = true;
    else if (a[0] != '-') opt.bc = a;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  S = new Solver(P);
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(opt.bc, err, ctx);
  if (!mod) { err.print("lcsym", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  int rc = 0;
  Engine E;
  State *init = new State();
  try {
    initBuiltins();
    // allocate globals first, then initialise
    for (auto &g : M->globals()) {
      if (g.isDeclaration()) {
        std::string n = g.getName().str();
        // opaque external objects (stdin/stdout/stderr, vtables of the C++ ABI, ...)
        uint32_t id = init->add(MemObj::make(256, KGlobal, false, "external"));
        gaddr[&g] = addrOf(id);
        continue;
      }
      uint32_t sz = DL->getTypeAllocSize(g.getValueType());
      uint32_t id = init->add(MemObj::make(sz, g.isConstant() ? KConst : KGlobal, false, strdup(g.getName().str().c_str())));
      gaddr[&g] = addrOf(id);
      if (g.isThreadLocal()) { init->own(id)->tls = true; E.tlsIds.push_back(id); }
    }
    for (auto &g : M->globals()) {
      if (g.isDeclaration()) continue;
      uint32_t id = gaddr[&g] >> 32;
      initGlobal(init, g.getInitializer(), init->own(id), 0);
    }
    E.s = init;
    E.saveTls(E.tls0);
    // sequence: constructors then main
    std::vector<Function *> seq;
    if (auto *gv = M->getGlobalVariable("llvm.global_ctors")) {
      if (auto *ca = dyn_cast<ConstantArray>(gv->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> v;
        for (unsigned i = 0; i < ca->getNumOperands(); i++) {
          auto *cs = cast<ConstantStruct>(ca->getOperand(i));
          if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
        }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : v) seq.push_back(p.second);
      }
    }
    Function *mf = M->getFunction("lc_main");
    if (!mf) { fprintf(stderr, "no lc_main\n"); return 3; }
    E.s = init;
    E.enter(fnOf(mf), {}, -1);
    for (auto it = seq.rbegin(); it != seq.rend(); ++it) { std::vector<Val> none; E.enter(fnOf(*it), none, -1); }
    // frames above lc_main return into a frame whose pc is 0: handled in leave() through the pc==0 guard
  } catch (EngineError &e) { R.errors.push_back(e.msg); }
  if (R.errors.empty()) E.run(init);
  if (!opt.out.empty()) writeResults(opt.out);
  if (opt.verbose) {
    fprintf(stderr, "paths %lu forks %lu steps %lu checks %lu queries %lu cache %lu z3 %lu (%.1fs) wall %.1fs viol %zu\n", R.paths, R.forks, R.steps, R.checks,
            S->st.queries, S->st.cacheHits, S->st.z3calls, S->st.z3time, now() - T0, R.viol.size());
    for (auto &v : R.viol) {
      fprintf(stderr, "VIOL %s: %s at %s%s\n", v.kind.c_str(), v.msg.c_str(), v.loc.c_str(), v.uninit ? " [uninit]" : "");
      for (auto &x : v.stack) fprintf(stderr, "    %s\n", x.c_str());
      for (auto &p : v.values) fprintf(stderr, "   %s=%llu", p.first.c_str(), (unsigned long long)p.second);
      fprintf(stderr, "\n");
    }
    for (auto &x : R.errors) fprintf(stderr, "ERROR %s\n", x.c_str());
    for (auto &x : R.incomplete) fprintf(stderr, "INCOMPLETE %s\n", x.c_str());
    for (auto &c : R.covers) fprintf(stderr, "cover %s %lu\n", c.first.c_str(), c.second);
    if (opt.prof) {
      std::vector<std::pair<uint64_t, std::string>> v;
      for (auto &p : R.forkLoc) v.push_back({p.second, p.first});
      std::sort(v.rbegin(), v.rend());
      for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "fork %8lu %s\n", v[i].first, v[i].second.c_str());
    }
  }
  if (!R.viol.empty()) rc = 1;
  else if (!R.errors.empty()) rc = 3;
  else if (!R.incomplete.empty()) rc = 2;
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
