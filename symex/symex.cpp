#include <set>
// Symbolic executor for LLVM IR (LLVM 18). Integers and pointers are concrete
// unless they derive from symbolic inputs; doubles are read as real numbers.
// Paths are explored depth-first by re-execution.
#include "expr.h"
#include "norm.h"
#include "solver.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <sys/mman.h>
#include <sys/resource.h>

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"

using namespace llvm;

// ------------------------------------------------------------------ state
struct Val {
  uint64_t u = 0;
  E s = 0;
};
static inline double asD(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint64_t asU(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline float asF(uint64_t u) { float d; uint32_t x = u; memcpy(&d, &x, 4); return d; }
static inline uint64_t asUF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

struct EngineError : std::runtime_error { using runtime_error::runtime_error; };
struct PathEnd { std::string why; bool bad; };
struct GuestThrow { uint64_t obj; uint64_t tinfo; };

static Pool P;
static Norm *NM;
static const DataLayout *DL;
static Module *M;

// options
static std::string optEntry;
static std::map<std::string, long> params;
static int optMaxPaths = 4000;
static double optFeasT = 1.5, optCheckT = 20, optWall = 800;
static bool optExact = false, optIte = false, optNoForkSel = false;
static std::string optDump, optOut, optTrace;
static uint64_t optSeed = 1;
static bool optRaw = false;
static std::string optSolver2;
static bool optVerbose = false;
static bool optConcUnk = false;

// ---- memory
static const uint64_t ARENA = 3ull << 30;
static uint8_t *mem, *mst; // data, state (0 unallocated, 1 uninitialised, 2 initialised)
static E *shadow;          // one entry per byte (first byte of a cell)
static uint8_t *shsz;      // size of the symbolic cell starting here
static uint8_t *line;      // per 64-byte line: may hold symbolic cells
static uint64_t brk_, snapBrk;
static uint64_t hiTouched;
static std::vector<uint8_t> snapMem, snapSt;
struct SnapCell { uint64_t o; E e; uint8_t sz; };
static std::vector<SnapCell> snapShadow; // uninitialised data left by static initialisation
static uint64_t undefCount = 0;

static inline uint64_t off(uint64_t p) { return p - (uint64_t)mem; }
static std::string curFnName();

[[noreturn]] static void memFault(const char *what, uint64_t p, uint64_t n) {
  char b[256];
  snprintf(b, sizeof b, "%s of %llu bytes at offset %lld in %s", what, (unsigned long long)n,
           (long long)(p - (uint64_t)mem), curFnName().c_str());
  throw PathEnd{std::string("memory error: ") + b, true};
}
static inline void chkRange(uint64_t p, uint64_t n, const char *what) {
  uint64_t o = off(p);
  if (o >= ARENA || o + n > ARENA) memFault(what, p, n);
  for (uint64_t i = 0; i < n; i++)
    if (!mst[o + i]) memFault(what, p, n);
}
static std::set<uint64_t> emptyAlloc; // allocations of no bytes
static uint64_t galloc(uint64_t n, uint64_t al = 16) {
  brk_ = (brk_ + 48 + al - 1) / al * al;
  uint64_t p = brk_;
  brk_ += n ? n : 1;
  if (brk_ > ARENA - 4096) throw EngineError("guest memory exhausted");
  memset(mst + p, 1, n);
  if (!n) emptyAlloc.insert(p);
  else emptyAlloc.erase(p);
  return (uint64_t)(mem + p);
}
static void clearSym(uint64_t o, uint64_t n) {
  if (!n) return;
  uint64_t lo = o >= 7 ? o - 7 : 0;
  bool any = false;
  for (uint64_t l = lo >> 6; l <= (o + n - 1) >> 6; l++) any |= line[l];
  if (!any) return;
  for (uint64_t i = lo; i < o + n; i++)
    if (shadow[i] && i + shsz[i] > o) {
      if (i < o || i + shsz[i] > o + n) {
        // partially overwritten symbolic cell: becomes unsupported unless concrete
        throw EngineError("partial overwrite of a symbolic cell in " + curFnName());
      }
      shadow[i] = 0;
    }
}
static void storeV(uint64_t p, const Val &v, unsigned n) {
  chkRange(p, n, "store");
  uint64_t o = off(p);
  clearSym(o, n);
  if (v.s) {
    shadow[o] = v.s;
    shsz[o] = n;
    line[o >> 6] = 1;
    if (((o + n - 1) >> 6) != (o >> 6)) line[(o + n - 1) >> 6] = 1;
    memset(mem + o, 0, n);
  } else
    memcpy(mem + o, &v.u, n);
  memset(mst + o, 2, n);
}
static E symOf(const Val &v, Type *ty);
static Val loadV(uint64_t p, unsigned n, bool isDouble, unsigned bits) {
  chkRange(p, n, "load");
  uint64_t o = off(p);
  Val v;
  uint64_t lo = o >= 7 ? o - 7 : 0;
  bool any = false;
  for (uint64_t l = lo >> 6; l <= (o + n - 1) >> 6; l++) any |= line[l];
  if (any) {
    if (shadow[o] && shsz[o] == n) {
      v.s = shadow[o];
      if (bits == 1 && isBV(P.op(v.s))) {
        E t = v.s;
        v.s = P.op(t) == I_FROMB ? P.n(t).a : P.icmp(B_IEQ, P.trunc(t, 1), P.ic(1, 1));
        if (P.op(v.s) == B_TRUE || P.op(v.s) == B_FALSE) { v.u = P.op(v.s) == B_TRUE; v.s = 0; }
      }
      return v;
    }
    for (uint64_t i = lo; i < o + n; i++)
      if (shadow[i] && i + shsz[i] > o) throw EngineError("partial load of a symbolic cell in " + curFnName());
  }
  bool uninit = false;
  for (unsigned i = 0; i < n; i++) uninit |= mst[o + i] != 2;
  if (uninit) {
    bool all = true;
    for (unsigned i = 0; i < n; i++) all &= mst[o + i] == 1;
    if (isDouble && all) {
      v.s = P.realVar("undef" + std::to_string(undefCount++), false, 0, false, 0);
      shadow[o] = v.s; shsz[o] = n; line[o >> 6] = 1;
      if (((o + n - 1) >> 6) != (o >> 6)) line[(o + n - 1) >> 6] = 1;
      memset(mst + o, 2, n);
      return v;
    }
    if (!isDouble && bits <= 64 && all && bits > 1) {
      v.s = P.intVar("undefi" + std::to_string(undefCount++), bits, -(1ll << (bits - 1)), (int64_t)((1ull << (bits - 1)) - 1));
      return v;
    }
  }
  memcpy(&v.u, mem + o, n);
  return v;
}
static void gmemcpy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return;
  chkRange(d, n, "memcpy write");
  chkRange(s, n, "memcpy read");
  uint64_t od = off(d), os = off(s);
  // gather symbolic cells of the source
  std::vector<std::pair<uint64_t, std::pair<E, uint8_t>>> cells;
  for (uint64_t l = os >> 6; l <= (os + n - 1) >> 6; l++)
    if (line[l])
      for (uint64_t i = std::max(os, l << 6); i < std::min(os + n, (l + 1) << 6); i++)
        if (shadow[i]) {
          if (i + shsz[i] > os + n) throw EngineError("memcpy splits a symbolic cell");
          cells.push_back({i - os, {shadow[i], shsz[i]}});
        }
  clearSym(od, n);
  memmove(mem + od, mem + os, n);
  memmove(mst + od, mst + os, n);
  for (auto &c : cells) {
    shadow[od + c.first] = c.second.first;
    shsz[od + c.first] = c.second.second;
    line[(od + c.first) >> 6] = 1;
    line[(od + c.first + c.second.second - 1) >> 6] = 1;
  }
}
static void gmemset(uint64_t d, uint8_t v, uint64_t n) {
  if (!n) return;
  chkRange(d, n, "memset");
  uint64_t o = off(d);
  clearSym(o, n);
  memset(mem + o, v, n);
  memset(mst + o, 2, n);
}
static std::string cstr(uint64_t p) {
  chkRange(p, 1, "string read");
  return std::string((char *)p);
}

// ---- compiled functions
struct FnC;
struct Opd { int i; }; // >=0 frame slot, <0 constant pool
struct PhiMove { int dst; Opd src; int n; };
struct Ins {
  Instruction *I;
  unsigned op;
  int dst = -1;
  unsigned nd = 0;           // result slots
  unsigned bits = 0;         // scalar bits of the result or of operand 0
  uint8_t kind = 0;          // operand class: 0 int/ptr, 1 double, 2 float
  std::vector<Opd> a;
  std::vector<unsigned> an;  // slots per operand
  int t = -1, f = -1;        // successors
  int et = -1, ef = -1;      // phi edge ids
  std::vector<std::pair<uint64_t, int>> cases;
  std::vector<int> caseEdge;
  int64_t off0 = 0;
  std::vector<std::pair<int, int64_t>> scaled; // operand index, scale (gep)
  std::vector<std::tuple<int64_t, unsigned, uint8_t, unsigned>> leaves; // offset,size,kind,bits for load/store
  Function *callee = nullptr;
  int intrin = 0;
  std::string cname;
  int fpred = 0;
  std::vector<int> idx;
  uint64_t asz = 0, aal = 0;
};
struct FnC {
  Function *F;
  int nslots = 0;
  std::vector<Val> cpool;
  std::vector<Ins> ins;
  std::vector<int> blockStart;
  std::vector<std::vector<PhiMove>> edges;
  std::vector<Opd> argSlots;
  std::map<BasicBlock *, int> bid;
  uint64_t calls = 0;
};
static std::map<Function *, FnC *> fns;
static std::map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, Function *> fnAt;
static std::map<std::string, Function *> redirect; // demangled base name -> stub
static std::vector<FnC *> callStack;
static std::string curFnName() {
  if (callStack.empty()) return "?";
  return demangle(callStack.back()->F->getName().str()).substr(0, 120);
}

static unsigned leafCount(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = dyn_cast<StructType>(t)) {
    unsigned n = 0;
    for (auto *e : st->elements()) n += leafCount(e);
    return n;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leafCount(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  return 1;
}
static void leavesOf(Type *t, int64_t o, std::vector<std::tuple<int64_t, unsigned, uint8_t, unsigned>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      leavesOf(st->getElementType(i), o + (int64_t)sl->getElementOffset(i), out);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    int64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), o + i * sz, out);
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    int64_t sz = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), o + i * sz, out);
    return;
  }
  unsigned bits = t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue();
  out.push_back({o, (unsigned)DL->getTypeStoreSize(t).getFixedValue(), (uint8_t)(t->isDoubleTy() ? 1 : t->isFloatTy() ? 2 : 0), bits});
}
static unsigned scalarBits(Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType();
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static uint8_t scalarKind(Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType();
  if (t->isDoubleTy()) return 1;
  if (t->isFloatTy()) return 2;
  return 0;
}

static uint64_t addrOf(const GlobalValue *g);
static void constVals(Constant *c, std::vector<Val> &out);
static int64_t constOffset(GEPOperator *g) {
  APInt o(64, 0);
  if (!g->accumulateConstantOffset(*DL, o)) throw EngineError("non-constant gep constant");
  return o.getSExtValue();
}
static uint64_t constInt(Constant *c) {
  std::vector<Val> v;
  constVals(c, v);
  return v[0].u;
}
static void constVals(Constant *c, std::vector<Val> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    Val v;
    v.u = ci->getValue().getZExtValue() ;
    out.push_back(v);
  } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
    Val v;
    if (cf->getType()->isDoubleTy()) v.u = asU(cf->getValueAPF().convertToDouble());
    else if (cf->getType()->isFloatTy()) v.u = asUF(cf->getValueAPF().convertToFloat());
    else throw EngineError("fp const type");
    out.push_back(v);
  } else if (isa<ConstantPointerNull>(c)) {
    out.push_back(Val());
  } else if (isa<UndefValue>(c)) {
    unsigned n = leafCount(c->getType());
    std::vector<std::tuple<int64_t, unsigned, uint8_t, unsigned>> lv;
    leavesOf(c->getType(), 0, lv);
    for (unsigned i = 0; i < n; i++) {
      Val v;
      if (std::get<2>(lv[i]) == 1 && !isa<PoisonValue>(c) && !c->getType()->isStructTy() && !c->getType()->isVectorTy())
        v.s = P.realVar("undefc" + std::to_string(undefCount++), false, 0, false, 0);
      out.push_back(v);
    }
  } else if (isa<ConstantAggregateZero>(c)) {
    unsigned n = leafCount(c->getType());
    for (unsigned i = 0; i < n; i++) out.push_back(Val());
  } else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out);
  } else if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (auto &o : ca->operands()) constVals(cast<Constant>(o.get()), out);
  } else if (auto *g = dyn_cast<GlobalValue>(c)) {
    Val v;
    v.u = addrOf(g);
    out.push_back(v);
  } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    Val v;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce);
      v.u = constInt(cast<Constant>(g->getPointerOperand())) + constOffset(g);
      break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      v.u = constInt(ce->getOperand(0));
      break;
    case Instruction::Sub: v.u = constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)); break;
    case Instruction::Add: v.u = constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)); break;
    default: throw EngineError("constant expression");
    }
    out.push_back(v);
  } else
    throw EngineError("constant kind");
}
static Function *resolveFn(Function *f) { return f; }
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) {
    uint64_t a = galloc(16);
    memset(mst + off(a), 2, 16);
    gaddr[g] = a;
    fnAt[a] = const_cast<Function *>(f);
    return a;
  }
  auto *gv = cast<GlobalVariable>(g);
  uint64_t n = DL->getTypeAllocSize(gv->getValueType());
  if (!gv->hasInitializer()) n = std::max<uint64_t>(n, 512); // external object (e.g. std::cout, vtables)
  uint64_t a = galloc(n, std::max<uint64_t>(16, gv->getAlign() ? gv->getAlign()->value() : 16));
  gaddr[g] = a;
  memset(mem + off(a), 0, n);
  memset(mst + off(a), 2, n);
  if (gv->hasInitializer()) {
    std::vector<Val> v;
    constVals(const_cast<Constant *>(gv->getInitializer()), v);
    std::vector<std::tuple<int64_t, unsigned, uint8_t, unsigned>> lv;
    leavesOf(gv->getValueType(), 0, lv);
    for (size_t i = 0; i < v.size(); i++) memcpy(mem + off(a) + std::get<0>(lv[i]), &v[i].u, std::get<1>(lv[i]));
  }
  return a;
}

static std::string baseName(const std::string &mangled) {
  std::string d = demangle(mangled);
  // strip return type (templates) and arguments
  size_t depth = 0, end = d.size();
  for (size_t i = 0; i < d.size(); i++) {
    if (d[i] == '<') depth++;
    else if (d[i] == '>') depth--;
    else if (d[i] == '(' && depth == 0) { end = i; break; }
  }
  return d.substr(0, end);
}

// name/number of parameters, for overloaded functions
static std::string arityName(const std::string &mangled) {
  std::string d = demangle(mangled), b = baseName(mangled);
  if (d.size() <= b.size()) return b;
  int n = 0, depth = 0;
  for (size_t i = b.size(); i < d.size(); i++) {
    if (d[i] == '(' || d[i] == '<') depth++;
    else if (d[i] == ')' || d[i] == '>') { if (--depth == 0) break; }
    else if (d[i] == ',' && depth == 1) n++;
    else if (depth >= 1 && n == 0 && d[i] != ' ') n = 1;
  }
  // n counts the first parameter once and every comma once
  return b + "/" + std::to_string(n);
}

static FnC *compileFn(Function *F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  FnC *C = new FnC;
  C->F = F;
  fns[F] = C;
  std::map<Value *, int> slot;
  int ns = 0;
  for (auto &A : F->args()) {
    C->argSlots.push_back({ns});
    slot[&A] = ns;
    ns += leafCount(A.getType());
  }
  for (auto &B : *F)
    for (auto &I : B) {
      unsigned n = leafCount(I.getType());
      if (n) { slot[&I] = ns; ns += n; }
    }
  std::map<Value *, int> cslot;
  auto opd = [&](Value *v) -> Opd {
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return {-1};
    if (auto *c = dyn_cast<Constant>(v)) {
      auto k = cslot.find(v);
      if (k != cslot.end()) return {k->second};
      int i = -(int)C->cpool.size() - 1;
      constVals(c, C->cpool);
      cslot[v] = i;
      return {i};
    }
    return {slot.at(v)};
  };
  C->cpool.push_back(Val());
  int nb = 0;
  for (auto &B : *F) C->bid[&B] = nb++;
  C->blockStart.resize(nb);
  std::map<std::pair<BasicBlock *, BasicBlock *>, int> edgeId;
  auto edge = [&](BasicBlock *from, BasicBlock *to) {
    auto k = std::make_pair(from, to);
    auto e = edgeId.find(k);
    if (e != edgeId.end()) return e->second;
    std::vector<PhiMove> mv;
    for (auto &ph : to->phis()) {
      PhiMove m;
      m.dst = slot[&ph];
      m.src = opd(ph.getIncomingValueForBlock(from));
      m.n = leafCount(ph.getType());
      mv.push_back(m);
    }
    int id = C->edges.size();
    C->edges.push_back(mv);
    edgeId[k] = id;
    return id;
  };
  for (auto &B : *F) {
    C->blockStart[C->bid[&B]] = C->ins.size();
    for (auto &I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      Ins x;
      x.I = &I;
      x.op = I.getOpcode();
      x.nd = leafCount(I.getType());
      if (x.nd) x.dst = slot[&I];
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        x.t = C->bid[br->getSuccessor(0)];
        x.et = edge(&B, br->getSuccessor(0));
        if (br->isConditional()) {
          x.a.push_back(opd(br->getCondition()));
          x.f = C->bid[br->getSuccessor(1)];
          x.ef = edge(&B, br->getSuccessor(1));
        }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.a.push_back(opd(sw->getCondition()));
        x.bits = sw->getCondition()->getType()->getIntegerBitWidth();
        x.t = C->bid[sw->getDefaultDest()];
        x.et = edge(&B, sw->getDefaultDest());
        for (auto &c : sw->cases()) {
          x.cases.push_back({c.getCaseValue()->getValue().getZExtValue(), C->bid[c.getCaseSuccessor()]});
          x.caseEdge.push_back(edge(&B, c.getCaseSuccessor()));
        }
      } else if (auto *iv = dyn_cast<InvokeInst>(&I)) {
        x.t = C->bid[iv->getNormalDest()];
        x.et = edge(&B, iv->getNormalDest());
        x.f = C->bid[iv->getUnwindDest()];
        x.ef = edge(&B, iv->getUnwindDest());
      }
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) {
          x.a.push_back(opd(a.get()));
          x.an.push_back(isa<MetadataAsValue>(a.get()) ? 0 : leafCount(a->getType()));
        }
        x.bits = scalarBits(I.getType());
        x.kind = scalarKind(I.getType());
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto *f = dyn_cast<Function>(cv)) {
          x.callee = f;
          x.intrin = f->getIntrinsicID();
          x.cname = f->getName().str();
          auto r = redirect.find(baseName(x.cname));
          if (r == redirect.end()) r = redirect.find(arityName(x.cname));
          if (r != redirect.end() && r->second != F) x.callee = r->second;
        } else if (isa<InlineAsm>(cv)) {
          x.cname = "<asm>";
          x.intrin = -1;
        } else {
          x.a.push_back(opd(cv));
          x.an.push_back(1);
        }
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) throw EngineError("vector gep");
        x.a.push_back(opd(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull())
            x.off0 += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) x.off0 += ci->getSExtValue() * sz;
            else {
              x.a.push_back(opd(ix));
              x.scaled.push_back({(int)ix->getType()->getIntegerBitWidth(), sz});
            }
          }
        }
      } else if (!isa<BranchInst>(I) && !isa<SwitchInst>(I)) {
        for (auto &o : I.operands()) {
          x.a.push_back(opd(o.get()));
          x.an.push_back(isa<BasicBlock>(o.get()) ? 0 : leafCount(o->getType()));
        }
        if (I.getNumOperands()) {
          x.bits = scalarBits(I.getOperand(0)->getType());
          x.kind = scalarKind(I.getOperand(0)->getType());
        }
        if (auto *ld = dyn_cast<LoadInst>(&I)) leavesOf(ld->getType(), 0, x.leaves);
        if (auto *st = dyn_cast<StoreInst>(&I)) leavesOf(st->getValueOperand()->getType(), 0, x.leaves);
        if (auto *fc = dyn_cast<CmpInst>(&I)) x.fpred = fc->getPredicate();
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
          Type *t = ev->getAggregateOperand()->getType();
          int o = 0;
          for (unsigned ix : ev->indices()) {
            if (auto *st = dyn_cast<StructType>(t)) {
              for (unsigned k = 0; k < ix; k++) o += leafCount(st->getElementType(k));
              t = st->getElementType(ix);
            } else {
              t = cast<ArrayType>(t)->getElementType();
              o += ix * leafCount(t);
            }
          }
          x.idx.push_back(o);
        }
        if (auto *ev = dyn_cast<InsertValueInst>(&I)) {
          Type *t = ev->getAggregateOperand()->getType();
          int o = 0;
          for (unsigned ix : ev->indices()) {
            if (auto *st = dyn_cast<StructType>(t)) {
              for (unsigned k = 0; k < ix; k++) o += leafCount(st->getElementType(k));
              t = st->getElementType(ix);
            } else {
              t = cast<ArrayType>(t)->getElementType();
              o += ix * leafCount(t);
            }
          }
          x.idx.push_back(o);
        }
        if (auto *sv = dyn_cast<ShuffleVectorInst>(&I))
          for (int m : sv->getShuffleMask()) x.idx.push_back(m);
        if (auto *al = dyn_cast<AllocaInst>(&I)) {
          x.asz = DL->getTypeAllocSize(al->getAllocatedType());
          x.aal = al->getAlign().value();
          x.bits = scalarBits(al->getArraySize()->getType());
        }
      }
      C->ins.push_back(std::move(x));
    }
  }
  C->nslots = ns;
  return C;
}

// ------------------------------------------------------------------ path exploration
struct Decision { int choice; std::vector<uint64_t> alts; uint64_t val; };
static std::vector<Decision> dec; // decisions of the current path (prefix replayed)
static size_t decPos;             // next decision to consume
static size_t prefixLen;          // decisions fixed before this run
static std::vector<E> pc;
static std::set<E> pcSet;
static Solver *Z;
struct Stats {
  uint64_t paths = 0, completed = 0, feasQ = 0, checks = 0, checksTrivial = 0, checksNF = 0, checksSolver = 0, unknown = 0, insts = 0, infeasible = 0, throws = 0;
  uint64_t obligations = 0, feasUnknown = 0, forks = 0;
  double solverT = 0;
} S;
struct Finding {
  std::string msg, verdict; // "sat" | "unknown" | "error"
  std::vector<std::map<std::string, double>> models;
  std::string path;
};
static std::vector<Finding> findings;
static std::map<std::string, uint64_t> msgCount;
static std::set<std::string> encoded;
static bool throwExpected;
static double tStart;
static std::mt19937_64 rng;
static bool sawWitness = false;
static std::map<std::string, double> witness;
static std::string witnessHow = "none";
static uint64_t uncaught = 0;
static bool timedOut = false;
static std::vector<std::string> notes;
static double nativeScale = 0;

static void varsOf(E e, std::set<E> &out, std::set<E> &seen) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    st.pop_back();
    if (!x || !seen.insert(x).second) continue;
    const Node nd = P.n(x);
    if (nd.op == R_VAR || nd.op == B_VAR || nd.op == I_VAR) { out.insert(x); continue; }
    if (nd.op == R_UF) { for (E y : P.ufs[nd.x].second) st.push_back(y); continue; }
    st.push_back(nd.a); st.push_back(nd.b); st.push_back(nd.c);
  }
}
static std::unordered_map<E, std::vector<E>> varMemo;
static const std::vector<E> &varsOfC(E e) {
  auto it = varMemo.find(e);
  if (it != varMemo.end()) return it->second;
  std::set<E> o, s;
  varsOf(e, o, s);
  return varMemo[e] = std::vector<E>(o.begin(), o.end());
}
static std::vector<E> slicePC(const std::vector<E> &goal) {
  std::set<E> vs;
  for (E g : goal) for (E v : varsOfC(g)) vs.insert(v);
  std::vector<bool> in(pc.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i]) {
        bool hit = false;
        for (E v : varsOfC(pc[i])) if (vs.count(v)) { hit = true; break; }
        if (hit) {
          in[i] = true;
          ch = true;
          for (E v : varsOfC(pc[i])) vs.insert(v);
        }
      }
  }
  std::vector<E> r;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
static double parseNum(const std::string &s0) {
  // forms: 1.0  (- 1.0)  (/ 1.0 3.0)  1.234?  #b.. #x.. true false
  std::string s = s0;
  size_t i = 0;
  std::function<double()> rd = [&]() -> double {
    while (i < s.size() && isspace(s[i])) i++;
    if (i < s.size() && s[i] == '(') {
      i++;
      while (isspace(s[i])) i++;
      char op = s[i++];
      double a = rd();
      while (i < s.size() && isspace(s[i])) i++;
      if (s[i] == ')') { i++; return op == '-' ? -a : a; }
      double b = rd();
      while (i < s.size() && s[i] != ')') i++;
      i++;
      return op == '/' ? a / b : op == '*' ? a * b : op == '+' ? a + b : a - b;
    }
    size_t j = i;
    while (j < s.size() && !isspace(s[j]) && s[j] != ')') j++;
    std::string t = s.substr(i, j - i);
    i = j;
    if (t == "true") return 1;
    if (t == "false") return 0;
    if (t.rfind("#b", 0) == 0) {
      int w = t.size() - 2;
      return (double)Pool::sx(strtoull(t.c_str() + 2, nullptr, 2), w);
    }
    if (t.rfind("#x", 0) == 0) return (double)Pool::sx(strtoull(t.c_str() + 2, nullptr, 16), 4 * (t.size() - 2));
    if (!t.empty() && t.back() == '?') t.pop_back();
    return atof(t.c_str());
  };
  return rd();
}
static std::string vname(E v) {
  Op o = P.op(v);
  if (o == R_VAR) return "a" + std::to_string(NM->var(v));
  return (o == B_VAR ? "b" : "i") + std::to_string(v);
}
static int dumpN = 0;
// 1 sat, 0 unsat, -1 unknown
static int solve(const std::vector<E> &conj, double T, std::map<std::string, double> *model) {
  double t0 = nowS();
  std::string q;
  std::vector<E> mv;
  bool bv;
  try {
    q = NM->query(conj, mv, bv);
  } catch (TooBig &e) {
    NM->work = 0;
    S.solverT += nowS() - t0;
    return -1;
  }
  NM->work = 0;
  int res = -1;
  // what follows from linear reasoning over the products already
  if (!bv && q.find("(*") != std::string::npos) {
    std::string lq, rep;
    std::vector<E> lmv;
    NM->lin = true;
    NM->linMono.clear();
    try {
      lq = NM->query(conj, lmv, bv);
    } catch (TooBig &e) {
      lq.clear();
    }
    NM->lin = false;
    bool used = !NM->linMono.empty();
    NM->linMono.clear();
    NM->work = 0;
    double tl = std::min(T, 3.);
    if (used && !lq.empty() && Z->run("(reset)\n(set-option :timeout " + std::to_string((int)(tl * 1000)) + ")\n(set-logic QF_LRA)\n" + lq + "(check-sat)\n", rep, tl + 1) &&
        rep.find("(error") == std::string::npos && rep.find("unsat") != std::string::npos) {
      S.solverT += nowS() - t0;
      return 0;
    }
  }
  std::vector<std::string> heads;
  bool real = q.find(" Real)") != std::string::npos;
  if (!bv && real) heads.push_back("(set-logic QF_NRA)\n");
  heads.push_back("");
  for (size_t h = 0; h < heads.size() && res < 0; h++) {
    double tl = T / heads.size();
    std::string txt = "(reset)\n(set-option :timeout " + std::to_string((int)(tl * 1000)) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" +
                      heads[h] + q + "(check-sat)\n";
    if (!optDump.empty()) {
      std::ofstream o(optDump + "/q" + std::to_string(dumpN++) + ".smt2");
      o << txt;
    }
    std::string rep;
    if (!Z->run(txt, rep, tl + 1.0)) continue;
    if (rep.find("(error") != std::string::npos) {
      if (optVerbose) std::cerr << "solver error: " << rep.substr(0, 300) << "\n";
      continue;
    }
    if (rep.find("unsat") != std::string::npos) res = 0;
    else if (rep.find("unknown") != std::string::npos) res = -1;
    else if (rep.find("sat") != std::string::npos) {
      res = 1;
      if (model && !mv.empty()) {
        std::string g = "(get-value (";
        for (E v : mv) g += " " + vname(v);
        g += "))";
        std::string r2;
        if (Z->run(g, r2, 5)) {
          for (E v : mv) {
            std::string nm = "(" + vname(v) + " ";
            size_t p = r2.find(nm);
            if (p == std::string::npos) continue;
            p += nm.size();
            int depth = 0;
            size_t e = p;
            while (e < r2.size()) {
              if (r2[e] == '(') depth++;
              if (r2[e] == ')') { if (!depth) break; depth--; }
              e++;
            }
            std::string t = r2.substr(p, e - p);
            if (t.find("root-obj") != std::string::npos) continue;
            (*model)[P.vars[P.n(v).x].name] = parseNum(t);
          }
        }
      }
    }
  }
  S.solverT += nowS() - t0;
  return res;
}

static void addPC(E c) {
  if (P.op(c) == B_TRUE) return;
  if (P.op(c) == B_AND) { addPC(P.n(c).a); addPC(P.n(c).b); return; }
  if (pcSet.insert(c).second) pc.push_back(c);
}
// random points that satisfy the path condition (candidate models only)
static bool samplePoint(Eval &ev, std::mt19937_64 &g, int mode) {
  ev.vv.assign(P.vars.size(), 0);
  std::uniform_real_distribution<double> U(0, 1);
  for (size_t i = 0; i < P.vars.size(); i++) {
    auto &v = P.vars[i];
    if (v.sort == 'b') ev.vv[i] = g() & 1;
    else if (v.sort == 'i') ev.vv[i] = v.ilo + (int64_t)(g() % (uint64_t)(v.ihi - v.ilo + 1 ? v.ihi - v.ilo + 1 : 1));
    else {
      double lo = v.haslo ? v.lo : -3, hi = v.hashi ? v.hi : 3;
      double u = U(g);
      double m = std::max(std::fabs(lo), std::fabs(hi));
      if (mode == 1 && lo < 0 && hi > 0 && m > 2) { lo = std::max(lo, -2.); hi = std::min(hi, 2.); }
      if (lo > 0 && hi / lo > 100) ev.vv[i] = lo * std::pow(hi / lo, u);
      else ev.vv[i] = lo + (hi - lo) * u;
      if (mode == 2) ev.vv[i] = std::round(ev.vv[i] * 4) / 4, ev.vv[i] = std::min(std::max(ev.vv[i], lo), hi);
    }
  }
  ev.reset();
  for (E c : pc)
    if (ev.ev(c) == 0 || std::isnan(ev.ev(c))) return false;
  return true;
}
static std::map<std::string, double> pointOf(Eval &ev) {
  std::map<std::string, double> m;
  for (size_t i = 0; i < P.vars.size(); i++) m[P.vars[i].name] = ev.vv[i];
  return m;
}
// 1 feasible, 0 infeasible, -1 unknown
static std::vector<std::vector<double>> goodPts; // points known to satisfy earlier prefixes
static int feasible(E c) {
  int q = NM->quick(c);
  if (q >= 0) { return q; }
  if (pcSet.count(c)) return 1;
  if (pcSet.count(P.bnot(c))) return 0;
  std::vector<E> cj = slicePC({c});
  cj.push_back(c);
  S.feasQ++;
  int r = solve(cj, optFeasT, nullptr);
  if (r < 0) S.feasUnknown++;
  return r;
}

static bool inStatic = true;
static bool inPrefix() { return decPos < prefixLen; }

static bool decide(E c) {
  if (P.op(c) == B_TRUE) return true;
  if (P.op(c) == B_FALSE) return false;
  if (inStatic) throw EngineError("static initialisation branches on uninitialised data");
  if (decPos < dec.size()) {
    bool b = dec[decPos++].val;
    addPC(b ? c : P.bnot(c));
    return b;
  }
  if (nowS() - tStart > optWall) { timedOut = true; throw PathEnd{"time", false}; }
  E nc = P.bnot(c);
  Decision d;
  d.choice = 0;
  int ft = feasible(c);
  int ff = ft == 0 ? 1 : feasible(nc);
  if (ft == 0 && ff == 0) throw PathEnd{"infeasible", false};
  if (ft != 0) {
    d.val = 1;
    if (ff != 0) { d.alts.push_back(0); S.forks++; }
  } else
    d.val = 0;
  dec.push_back(d);
  decPos++;
  addPC(d.val ? c : nc);
  return d.val;
}
// concretise a bit-vector expression: one path per feasible value
static uint64_t concretise(E e) {
  int w = P.n(e).w;
  if (P.isIC(e)) return P.n(e).x;
  if (P.op(e) == I_FROMB) return decide(P.n(e).a) ? 1 : 0;
  if (P.op(e) == I_ITE) return decide(P.n(e).a) ? concretise(P.n(e).b) : concretise(P.n(e).c);
  if (decPos < dec.size()) {
    uint64_t v = dec[decPos++].val;
    addPC(P.icmp(B_IEQ, e, P.ic(v, w)));
    return v;
  }
  if (nowS() - tStart > optWall) { timedOut = true; throw PathEnd{"time", false}; }
  // enumerate by small search: vars involved have bounded ranges; ask the solver
  std::vector<uint64_t> vals;
  std::vector<E> base = slicePC({e});
  std::vector<E> cj = base;
  // a fresh variable equal to e gives the model value
  E fv = P.intVar("conc" + std::to_string(e), w, w >= 64 ? INT64_MIN : -(1ll << (w - 1)), w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1);
  cj.push_back(P.icmp(B_IEQ, fv, e));
  while (vals.size() < 70) {
    std::map<std::string, double> m;
    S.feasQ++;
    int r = solve(cj, 10, &m);
    if (r == 0) break;
    if (r < 0) throw EngineError("cannot enumerate a symbolic integer");
    uint64_t v = (uint64_t)(int64_t)m["conc" + std::to_string(e)] & Pool::mask(w);
    vals.push_back(v);
    cj.push_back(P.bnot(P.icmp(B_IEQ, e, P.ic(v, w))));
  }
  if (vals.empty()) throw PathEnd{"infeasible", false};
  if (vals.size() >= 70) throw EngineError("symbolic integer with too many values in " + curFnName());
  std::sort(vals.begin(), vals.end());
  Decision d;
  d.choice = 0;
  d.val = vals[0];
  d.alts.assign(vals.begin() + 1, vals.end());
  S.forks += d.alts.size();
  dec.push_back(d);
  decPos++;
  addPC(P.icmp(B_IEQ, e, P.ic(d.val, w)));
  return d.val;
}

static bool mismatch(Eval &ev, E cond) {
  // does cond fail clearly at this point?
  const Node nd = P.n(cond);
  if (nd.op == B_EQ) {
    double a = ev.ev(nd.a), b = ev.ev(nd.b);
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) > 1e-6 * (std::fabs(a) + std::fabs(b) + 1e-6);
  }
  if (nd.op == B_LT || nd.op == B_LE) {
    double a = ev.ev(nd.a), b = ev.ev(nd.b);
    return a > b + 1e-9 * (std::fabs(a) + std::fabs(b));
  }
  if (nd.op == B_AND) return mismatch(ev, nd.a) || mismatch(ev, nd.b);
  double v = ev.ev(cond);
  return v == 0;
}
static void doCheck(E cond, const std::string &msg) {
  if (inPrefix()) { addPC(cond); return; }
  S.checks++;
  msgCount[msg]++;
  if (P.op(cond) == B_TRUE) { S.checksTrivial++; return; }
  if (pcSet.count(cond)) { S.checksTrivial++; return; }
  if (nowS() - tStart > optWall) { timedOut = true; throw PathEnd{"time", false}; }
  // the negated assertion, in normal form, goes to the solver with the path condition
  E neg = P.bnot(cond);
  std::vector<E> cj = P.op(cond) == B_FALSE ? pc : slicePC({neg});
  std::map<std::string, double> m;
  int r;
  bool nf = false;
  if (P.op(cond) == B_EQ) {
    try {
      RF d = NM->radd(NM->norm(P.n(cond).a), NM->norm(P.n(cond).b), -1);
      nf = d.num.zero();
    } catch (TooBig &) {
      NM->work = 0;
    }
  }
  if (nf) {
    // difference is the zero polynomial: discharge the residual query alone
    S.checksNF++;
    r = solve({neg}, 5, nullptr);
    if (r != 0) throw EngineError("solver disagrees with the normal form");
  } else {
    cj.push_back(neg);
    S.checksSolver++;
    if (!findings.empty() && findings.size() > 4) r = solve(cj, std::min(optCheckT, 3.0), &m);
    else r = solve(cj, optCheckT, &m);
  }
  if (r == 0) return;
  if (r < 0) S.unknown++;
  Finding f;
  f.msg = msg;
  f.verdict = r > 0 ? "sat" : "unknown";
  // candidate models: numeric points first (they avoid rounding-level differences), then the solver's
  Eval ev(P);
  int got = 0;
  double t0 = nowS();
  for (int i = 0; i < 6000 && got < 4 && nowS() - t0 < 6; i++) {
    if (!samplePoint(ev, rng, i % 3)) continue;
    if (mismatch(ev, cond)) { f.models.push_back(pointOf(ev)); got++; }
  }
  if (r > 0) {
    // complete the model with sampled values
    for (int i = 0; i < 3; i++) {
      samplePoint(ev, rng, i % 3);
      auto pt = pointOf(ev);
      for (auto &kv : m) pt[kv.first] = kv.second;
      f.models.push_back(pt);
    }
  }
  for (auto &d : dec) f.path += std::to_string(d.val) + ",";
  findings.push_back(f);
  if (optVerbose) std::cerr << "CHECK FAILED (" << f.verdict << ") " << msg << " candidates " << got << "\n";
  if (findings.size() >= 12) throw PathEnd{"too many findings", false};
  addPC(cond);
}

// ------------------------------------------------------------------ interpreter
static E liftReal(const Val &v) { return v.s ? v.s : P.num(asD(v.u)); }
static Val fromReal(E e) {
  Val v;
  if (P.isC(e) && !optExact) { v.u = asU(P.cv(e).get_d()); return v; }
  v.s = e;
  return v;
}
static E liftInt(const Val &v, unsigned w) {
  if (!v.s) return P.ic(v.u, w);
  if (isBool(P.op(v.s))) return P.fromB(v.s, w);
  if (isReal(P.op(v.s))) throw EngineError("integer arithmetic on the bits of a symbolic double in " + curFnName());
  return v.s;
}
static E liftBool(const Val &v) {
  if (!v.s) return (v.u & 1) ? P.T() : P.F();
  if (isBV(P.op(v.s))) return P.icmp(B_IEQ, P.trunc(v.s, 1), P.ic(1, 1));
  return v.s;
}
static Val fromBool(E e) {
  Val v;
  if (P.op(e) == B_TRUE) { v.u = 1; return v; }
  if (P.op(e) == B_FALSE) return v;
  v.s = e;
  return v;
}
static Val fromInt(E e) {
  Val v;
  if (P.isIC(e)) { v.u = P.n(e).x; return v; }
  v.s = e;
  return v;
}
static uint64_t conc(const Val &v, unsigned w) {
  if (!v.s) return v.u;
  if (isBool(P.op(v.s))) return decide(v.s) ? 1 : 0;
  if (isReal(P.op(v.s))) throw EngineError("address or integer from a symbolic double in " + curFnName());
  return concretise(v.s) & Pool::mask(w);
}
static E fcmpE(int pred, E a, E b) {
  switch (pred) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return P.eq(a, b);
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return P.bnot(P.eq(a, b));
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return P.lt(a, b);
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return P.le(a, b);
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return P.lt(b, a);
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return P.le(b, a);
  case CmpInst::FCMP_ORD: return P.T();
  case CmpInst::FCMP_UNO: return P.F();
  case CmpInst::FCMP_TRUE: return P.T();
  default: return P.F();
  }
}
static bool fcmpD(int pred, double a, double b) {
  bool uno = std::isnan(a) || std::isnan(b);
  switch (pred) {
  case CmpInst::FCMP_OEQ: return a == b;
  case CmpInst::FCMP_UEQ: return uno || a == b;
  case CmpInst::FCMP_ONE: return !uno && a != b;
  case CmpInst::FCMP_UNE: return a != b;
  case CmpInst::FCMP_OLT: return a < b;
  case CmpInst::FCMP_ULT: return uno || a < b;
  case CmpInst::FCMP_OLE: return a <= b;
  case CmpInst::FCMP_ULE: return uno || a <= b;
  case CmpInst::FCMP_OGT: return a > b;
  case CmpInst::FCMP_UGT: return uno || a > b;
  case CmpInst::FCMP_OGE: return a >= b;
  case CmpInst::FCMP_UGE: return uno || a >= b;
  case CmpInst::FCMP_ORD: return !uno;
  case CmpInst::FCMP_UNO: return uno;
  case CmpInst::FCMP_TRUE: return true;
  default: return false;
  }
}
// comparison against an infinite constant
static bool infCmp(int pred, const Val &a, const Val &b, bool &out) {
  double d;
  bool aInf = !a.s && !std::isfinite(asD(a.u)), bInf = !b.s && !std::isfinite(asD(b.u));
  auto big = [](const Val &v) { return !v.s && std::fabs(asD(v.u)) >= 1e300; };
  if (!aInf && !bInf && !big(a) && !big(b)) return false;
  double x = a.s ? 0 : asD(a.u), y = b.s ? 0 : asD(b.u);
  (void)d;
  out = fcmpD(pred, x, y);
  return true;
}

static std::vector<Val> callFn(Function *f, std::vector<Val> &args);
static std::vector<Val> external(Ins &x, std::vector<std::vector<Val>> &a, const std::string &name);

static Val binop(unsigned op, const Val &a, const Val &b, unsigned w) {
  if (!a.s && !b.s) {
    Val r;
    uint64_t m = Pool::mask(w), x = a.u & m, y = b.u & m;
    switch (op) {
    case Instruction::Add: r.u = (x + y) & m; break;
    case Instruction::Sub: r.u = (x - y) & m; break;
    case Instruction::Mul: r.u = (x * y) & m; break;
    case Instruction::UDiv: if (!y) throw PathEnd{"integer division by zero in " + curFnName(), true}; r.u = x / y; break;
    case Instruction::SDiv: if (!y) throw PathEnd{"integer division by zero in " + curFnName(), true}; r.u = (uint64_t)(Pool::sx(x, w) / Pool::sx(y, w)) & m; break;
    case Instruction::URem: if (!y) throw PathEnd{"integer division by zero in " + curFnName(), true}; r.u = x % y; break;
    case Instruction::SRem: if (!y) throw PathEnd{"integer division by zero in " + curFnName(), true}; r.u = (uint64_t)(Pool::sx(x, w) % Pool::sx(y, w)) & m; break;
    case Instruction::Shl: r.u = y >= w ? 0 : (x << y) & m; break;
    case Instruction::LShr: r.u = y >= w ? 0 : x >> y; break;
    case Instruction::AShr: r.u = (uint64_t)(Pool::sx(x, w) >> (y >= w ? w - 1 : y)) & m; break;
    case Instruction::And: r.u = x & y; break;
    case Instruction::Or: r.u = x | y; break;
    case Instruction::Xor: r.u = x ^ y; break;
    default: throw EngineError("binop");
    }
    return r;
  }
  if (w == 1) {
    E x = liftBool(a), y = liftBool(b);
    switch (op) {
    case Instruction::And: case Instruction::Mul: return fromBool(P.band(x, y));
    case Instruction::Or: return fromBool(P.bor(x, y));
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(P.bxor(x, y));
    default: throw EngineError("i1 op");
    }
  }
  // sign-bit tricks on doubles
  if (w == 64 && a.s && isReal(P.op(a.s)) && !b.s) {
    if (op == Instruction::And && b.u == 0x7fffffffffffffffull) {
      E c = P.lt(a.s, P.num(0));
      return fromReal(decide(c) ? P.neg(a.s) : a.s);
    }
    if (op == Instruction::Xor && b.u == 0x8000000000000000ull) return fromReal(P.neg(a.s));
  }
  E x = liftInt(a, w), y = liftInt(b, w);
  Op o;
  switch (op) {
  case Instruction::Add: o = I_ADD; break;
  case Instruction::Sub: o = I_SUB; break;
  case Instruction::Mul: o = I_MUL; break;
  case Instruction::UDiv: o = I_UDIV; break;
  case Instruction::SDiv: o = I_SDIV; break;
  case Instruction::URem: o = I_UREM; break;
  case Instruction::SRem: o = I_SREM; break;
  case Instruction::Shl: o = I_SHL; break;
  case Instruction::LShr: o = I_LSHR; break;
  case Instruction::AShr: o = I_ASHR; break;
  case Instruction::And: o = I_AND; break;
  case Instruction::Or: o = I_OR; break;
  case Instruction::Xor: o = I_XOR; break;
  default: throw EngineError("binop");
  }
  return fromInt(P.bin(o, x, y));
}
static Val icmpV(int pred, Val a, Val b, unsigned w) {
  if (!a.s && !b.s) {
    uint64_t m = Pool::mask(w), x = a.u & m, y = b.u & m;
    int64_t sx = Pool::sx(x, w), sy = Pool::sx(y, w);
    bool r;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = x == y; break;
    case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_ULT: r = x < y; break;
    case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_UGT: r = x > y; break;
    case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break;
    case CmpInst::ICMP_SLE: r = sx <= sy; break;
    case CmpInst::ICMP_SGT: r = sx > sy; break;
    default: r = sx >= sy; break;
    }
    Val v;
    v.u = r;
    return v;
  }
  if (w == 1) {
    E x = liftBool(a), y = liftBool(b);
    E eq = P.bnot(P.bxor(x, y));
    switch (pred) {
    case CmpInst::ICMP_EQ: return fromBool(eq);
    case CmpInst::ICMP_NE: return fromBool(P.bnot(eq));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return fromBool(P.band(P.bnot(x), y));
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return fromBool(P.band(x, P.bnot(y)));
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return fromBool(P.bor(P.bnot(x), y));
    default: return fromBool(P.bor(x, P.bnot(y)));
    }
  }
  if (w == 64 && a.s && isReal(P.op(a.s)) && !b.s) {
    if (pred == CmpInst::ICMP_SLT && b.u == 0) return fromBool(P.lt(a.s, P.num(0)));
    if (pred == CmpInst::ICMP_SGT && b.u == ~0ull) return fromBool(P.bnot(P.lt(a.s, P.num(0))));
  }
  E x = liftInt(a, w), y = liftInt(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromBool(P.icmp(B_IEQ, x, y));
  case CmpInst::ICMP_NE: return fromBool(P.bnot(P.icmp(B_IEQ, x, y)));
  case CmpInst::ICMP_ULT: return fromBool(P.icmp(B_IULT, x, y));
  case CmpInst::ICMP_ULE: return fromBool(P.icmp(B_IULE, x, y));
  case CmpInst::ICMP_UGT: return fromBool(P.icmp(B_IULT, y, x));
  case CmpInst::ICMP_UGE: return fromBool(P.icmp(B_IULE, y, x));
  case CmpInst::ICMP_SLT: return fromBool(P.icmp(B_ISLT, x, y));
  case CmpInst::ICMP_SLE: return fromBool(P.icmp(B_ISLE, x, y));
  case CmpInst::ICMP_SGT: return fromBool(P.icmp(B_ISLT, y, x));
  default: return fromBool(P.icmp(B_ISLE, y, x));
  }
}
static Val fbin(unsigned op, const Val &a, const Val &b) {
  Val r;
  if (!a.s && !b.s) {
    double x = asD(a.u), y = asD(b.u), z;
    switch (op) {
    case Instruction::FAdd: z = x + y; break;
    case Instruction::FSub: z = x - y; break;
    case Instruction::FMul: z = x * y; break;
    case Instruction::FDiv: z = x / y; break;
    default: z = fmod(x, y);
    }
    r.u = asU(z);
    return r;
  }
  // non-finite constants
  if ((!a.s && !std::isfinite(asD(a.u))) || (!b.s && !std::isfinite(asD(b.u)))) {
    r.u = asU(NAN);
    return r;
  }
  E x = liftReal(a), y = liftReal(b);
  switch (op) {
  case Instruction::FAdd: return fromReal(P.add(x, y));
  case Instruction::FSub: return fromReal(P.sub(x, y));
  case Instruction::FMul: return fromReal(P.mul(x, y));
  case Instruction::FDiv:
    if (P.isZ(y)) throw PathEnd{"division by the constant zero in " + curFnName(), true};
    return fromReal(P.div(x, y));
  default: throw EngineError("frem on symbolic");
  }
}
static Val selectV(const Val &c, const Val &a, const Val &b, uint8_t kind, unsigned w) {
  if (!c.s) return (c.u & 1) ? a : b;
  if (a.s == b.s && (a.s || a.u == b.u)) return a;
  E ce = liftBool(c);
  if (kind == 1 && optIte) return fromReal(P.rite(ce, liftReal(a), liftReal(b)));
  if (kind == 0 && w == 1) return fromBool(P.bite(ce, liftBool(a), liftBool(b)));
  if (kind == 0 && w <= 32) {
    bool ra = a.s && isReal(P.op(a.s)), rb = b.s && isReal(P.op(b.s));
    if (!ra && !rb) return fromInt(P.iite(ce, liftInt(a, w), liftInt(b, w)));
  }
  return decide(ce) ? a : b;
}

struct Frame {
  std::vector<Val> s;
};
static inline const Val &get(FnC *C, std::vector<Val> &fr, Opd o, unsigned k = 0) {
  return o.i >= 0 ? fr[o.i + k] : C->cpool[-o.i - 1 + k];
}

static std::string uniq(const std::string &n);
static std::vector<Val> execFn(FnC *C, std::vector<Val> &args) {
  if (callStack.size() > 4000) throw EngineError("guest stack overflow");
  callStack.push_back(C);
  C->calls++;
  struct Pop { uint64_t b; ~Pop() { callStack.pop_back(); } } pop{brk_};
  uint64_t frameBrk = brk_;
  (void)frameBrk;
  std::vector<std::pair<uint64_t, uint64_t>> allocas;
  struct FreeA {
    std::vector<std::pair<uint64_t, uint64_t>> &v;
    ~FreeA() {
      for (auto &p : v) {
        uint64_t o = off(p.first);
        for (uint64_t l = o >> 6; l <= (o + p.second) >> 6; l++)
          if (line[l]) { for (uint64_t i = o; i < o + p.second; i++) shadow[i] = 0; break; }
        memset(mst + o, 0, p.second);
      }
    }
  } freeA{allocas};
  std::vector<Val> fr(C->nslots);
  std::copy(args.begin(), args.end(), fr.begin());
  std::vector<Val> tmp;
  auto takeEdge = [&](int e) {
    auto &mv = C->edges[e];
    if (mv.empty()) return;
    tmp.clear();
    for (auto &m : mv) for (int k = 0; k < m.n; k++) tmp.push_back(get(C, fr, m.src, k));
    size_t j = 0;
    for (auto &m : mv) for (int k = 0; k < m.n; k++) fr[m.dst + k] = tmp[j++];
  };
  size_t ip = C->blockStart[0];
  GuestThrow pending{0, 0};
  while (true) {
    Ins &x = C->ins[ip++];
    S.insts++;
    if ((S.insts & 0xfffff) == 0 && nowS() - tStart > optWall) { timedOut = true; throw PathEnd{"time", false}; }
    switch (x.op) {
    case Instruction::Ret: {
      std::vector<Val> r;
      if (!x.a.empty()) for (unsigned k = 0; k < x.an[0]; k++) r.push_back(get(C, fr, x.a[0], k));
      return r;
    }
    case Instruction::Br: {
      bool t = true;
      if (!x.a.empty()) {
        const Val &c = get(C, fr, x.a[0]);
        t = c.s ? decide(liftBool(c)) : (c.u & 1);
      }
      takeEdge(t ? x.et : x.ef);
      ip = C->blockStart[t ? x.t : x.f];
      break;
    }
    case Instruction::Switch: {
      uint64_t v = conc(get(C, fr, x.a[0]), x.bits) & Pool::mask(x.bits);
      int b = x.t, e = x.et;
      for (size_t i = 0; i < x.cases.size(); i++)
        if (x.cases[i].first == v) { b = x.cases[i].second; e = x.caseEdge[i]; break; }
      takeEdge(e);
      ip = C->blockStart[b];
      break;
    }
    case Instruction::Unreachable: throw PathEnd{"unreachable executed in " + curFnName(), true};
    case Instruction::FNeg: {
      for (unsigned k = 0; k < x.nd; k++) {
        Val a = get(C, fr, x.a[0], k);
        if (a.s) fr[x.dst + k] = fromReal(P.neg(a.s));
        else if (x.kind == 1) { a.u = asU(-asD(a.u)); fr[x.dst + k] = a; }
        else { a.u = asUF(-asF(a.u)); fr[x.dst + k] = a; }
      }
      break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      if (x.kind == 2) {
        float a = asF(get(C, fr, x.a[0]).u), b = asF(get(C, fr, x.a[1]).u), r;
        r = x.op == Instruction::FAdd ? a + b : x.op == Instruction::FSub ? a - b : x.op == Instruction::FMul ? a * b : a / b;
        fr[x.dst].u = asUF(r);
        fr[x.dst].s = 0;
        break;
      }
      if (x.kind != 1) throw EngineError("long double arithmetic");
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = fbin(x.op, get(C, fr, x.a[0], k), get(C, fr, x.a[1], k));
      break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = binop(x.op, get(C, fr, x.a[0], k), get(C, fr, x.a[1], k), x.bits);
      break;
    case Instruction::ICmp:
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = icmpV(x.fpred, get(C, fr, x.a[0], k), get(C, fr, x.a[1], k), x.bits);
      break;
    case Instruction::FCmp:
      for (unsigned k = 0; k < x.nd; k++) {
        const Val &a = get(C, fr, x.a[0], k), &b = get(C, fr, x.a[1], k);
        Val r;
        bool o;
        if (!a.s && !b.s) r.u = x.kind == 1 ? fcmpD(x.fpred, asD(a.u), asD(b.u)) : fcmpD(x.fpred, asF(a.u), asF(b.u));
        else if (infCmp(x.fpred, a, b, o)) r.u = o;
        else r = fromBool(fcmpE(x.fpred, liftReal(a), liftReal(b)));
        fr[x.dst + k] = r;
      }
      break;
    case Instruction::Select: {
      unsigned n = x.nd;
      bool vc = x.an[0] > 1;
      Type *ty = x.I->getType();
      uint8_t kd = scalarKind(ty);
      unsigned w = ty->isPointerTy() ? 64 : scalarBits(ty);
      if (ty->isStructTy()) w = 64;
      if (ty->isPointerTy()) {
        const Val &c = get(C, fr, x.a[0]);
        bool b = c.s ? decide(liftBool(c)) : (c.u & 1);
        fr[x.dst] = get(C, fr, x.a[b ? 1 : 2]);
        break;
      }
      for (unsigned k = 0; k < n; k++)
        fr[x.dst + k] = selectV(get(C, fr, x.a[0], vc ? k : 0), get(C, fr, x.a[1], k), get(C, fr, x.a[2], k), kd, w);
      break;
    }
    case Instruction::Alloca: {
      uint64_t n = x.asz * conc(get(C, fr, x.a[0]), 64);
      uint64_t p = galloc(n, std::max<uint64_t>(16, x.aal));
      allocas.push_back({p, n});
      fr[x.dst].u = p;
      fr[x.dst].s = 0;
      break;
    }
    case Instruction::Load: {
      uint64_t p = conc(get(C, fr, x.a[0]), 64);
      for (size_t k = 0; k < x.leaves.size(); k++) {
        auto &l = x.leaves[k];
        fr[x.dst + k] = loadV(p + std::get<0>(l), std::get<1>(l), std::get<2>(l) == 1, std::get<3>(l));
        if (std::get<3>(l) == 1 && !fr[x.dst + k].s) fr[x.dst + k].u &= 1;
      }
      break;
    }
    case Instruction::Store: {
      uint64_t p = conc(get(C, fr, x.a[1]), 64);
      for (size_t k = 0; k < x.leaves.size(); k++) {
        auto &l = x.leaves[k];
        Val v = get(C, fr, x.a[0], k);
        if (v.s && isBool(P.op(v.s))) v.s = P.fromB(v.s, 8 * std::get<1>(l));
        storeV(p + std::get<0>(l), v, std::get<1>(l));
      }
      break;
    }
    case Instruction::GetElementPtr: {
      uint64_t p = conc(get(C, fr, x.a[0]), 64) + x.off0;
      for (size_t k = 0; k < x.scaled.size(); k++) {
        const Val &v = get(C, fr, x.a[1 + k]);
        p += Pool::sx(conc(v, x.scaled[k].first), x.scaled[k].first) * x.scaled[k].second;
      }
      fr[x.dst].u = p;
      fr[x.dst].s = 0;
      break;
    }
    case Instruction::Trunc: {
      unsigned w = scalarBits(x.I->getType());
      for (unsigned k = 0; k < x.nd; k++) {
        Val a = get(C, fr, x.a[0], k);
        if (!a.s) a.u &= Pool::mask(w);
        else {
          E e = liftInt(a, x.bits);
          if (w == 1) {
            E t = P.trunc(e, 1);
            a = fromBool(P.op(t) == I_FROMB ? P.n(t).a : P.icmp(B_IEQ, t, P.ic(1, 1)));
          } else
            a = fromInt(P.trunc(e, w));
        }
        fr[x.dst + k] = a;
      }
      break;
    }
    case Instruction::ZExt: case Instruction::SExt: {
      unsigned w = scalarBits(x.I->getType());
      for (unsigned k = 0; k < x.nd; k++) {
        Val a = get(C, fr, x.a[0], k);
        if (!a.s) {
          a.u &= Pool::mask(x.bits);
          if (x.op == Instruction::SExt) a.u = (uint64_t)Pool::sx(a.u, x.bits) & Pool::mask(w);
        } else if (x.bits == 1) {
          E b = liftBool(a);
          a = x.op == Instruction::ZExt ? fromInt(P.fromB(b, w)) : fromInt(P.iite(b, P.ic(~0ull, w), P.ic(0, w)));
        } else {
          E e = liftInt(a, x.bits);
          a = fromInt(x.op == Instruction::ZExt ? P.zext(e, w) : P.sext(e, w));
        }
        fr[x.dst + k] = a;
      }
      break;
    }
    case Instruction::BitCast:
      if (x.nd != x.an[0]) throw EngineError("vector bitcast");
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = get(C, fr, x.a[0], k);
      break;
    case Instruction::PtrToInt: {
      Val a = get(C, fr, x.a[0]);
      a.u &= Pool::mask(scalarBits(x.I->getType()));
      fr[x.dst] = a;
      break;
    }
    case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = get(C, fr, x.a[0], k);
      break;
    case Instruction::SIToFP: case Instruction::UIToFP: {
      for (unsigned k = 0; k < x.nd; k++) {
        Val a = get(C, fr, x.a[0], k);
        if (a.s && isReal(P.op(a.s))) { fr[x.dst + k] = a; continue; } // a truncated real (see FPToSI)
        if (a.s && optIte && isBV(P.op(a.s)) && P.op(a.s) == I_FROMB) {
          fr[x.dst + k] = fromReal(P.rite(P.n(a.s).a, P.num(1), P.num(0)));
          continue;
        }
        uint64_t v = conc(a, x.bits);
        double d = x.op == Instruction::SIToFP ? (double)Pool::sx(v, x.bits) : (double)(v & Pool::mask(x.bits));
        Val r;
        r.u = scalarKind(x.I->getType()) == 2 ? asUF((float)d) : asU(d);
        fr[x.dst + k] = r;
      }
      break;
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = get(C, fr, x.a[0]);
      if (a.s) {
        // turned back into a real only: any real stands for it; otherwise one path per value
        bool back = true;
        for (const User *u : x.I->users()) back &= isa<SIToFPInst>(u) || isa<UIToFPInst>(u);
        if (back) {
          fr[x.dst] = fromReal(P.realVar(uniq("truncated"), false, 0, false, 0));
          break;
        }
        Itv v = NM->ritv(NM->norm(a.s));
        int lo = (int)std::max(v.lo, -64.), hi = (int)std::min(v.hi, 64.);
        if (v.lo < -64 && decide(P.le(a.s, P.num(-65)))) throw EngineError("integer part of a large symbolic real in " + curFnName());
        if (v.hi > 64 && decide(P.le(P.num(65), a.s))) throw EngineError("integer part of a large symbolic real in " + curFnName());
        int t = lo;
        while (t < hi && !decide(t >= 0 ? P.lt(a.s, P.num(t + 1)) : P.le(a.s, P.num(t)))) t++;
        Val r;
        r.u = (uint64_t)(int64_t)t & Pool::mask(scalarBits(x.I->getType()));
        fr[x.dst] = r;
        break;
      }
      Val r;
      double d = x.kind == 2 ? asF(a.u) : asD(a.u);
      r.u = (x.op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d) & Pool::mask(scalarBits(x.I->getType()));
      fr[x.dst] = r;
      break;
    }
    case Instruction::FPExt: {
      Val a = get(C, fr, x.a[0]);
      if (a.s) throw EngineError("fpext symbolic");
      if (x.kind != 2 || scalarKind(x.I->getType()) != 1) throw EngineError("long double");
      a.u = asU((double)asF(a.u));
      fr[x.dst] = a;
      break;
    }
    case Instruction::FPTrunc: {
      Val a = get(C, fr, x.a[0]);
      if (a.s) throw EngineError("fptrunc symbolic");
      if (x.kind != 1) throw EngineError("long double");
      a.u = asUF((float)asD(a.u));
      fr[x.dst] = a;
      break;
    }
    case Instruction::ExtractValue:
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = get(C, fr, x.a[0], x.idx[0] + k);
      break;
    case Instruction::InsertValue: {
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = get(C, fr, x.a[0], k);
      for (unsigned k = 0; k < x.an[1]; k++) fr[x.dst + x.idx[0] + k] = get(C, fr, x.a[1], k);
      break;
    }
    case Instruction::ExtractElement: {
      uint64_t i = conc(get(C, fr, x.a[1]), 64);
      fr[x.dst] = get(C, fr, x.a[0], i);
      break;
    }
    case Instruction::InsertElement: {
      uint64_t i = conc(get(C, fr, x.a[2]), 64);
      Val v = get(C, fr, x.a[1]);
      for (unsigned k = 0; k < x.nd; k++) fr[x.dst + k] = get(C, fr, x.a[0], k);
      fr[x.dst + i] = v;
      break;
    }
    case Instruction::ShuffleVector: {
      std::vector<Val> r;
      unsigned n = x.an[0];
      for (int m : x.idx) r.push_back(m < 0 ? Val() : m < (int)n ? get(C, fr, x.a[0], m) : get(C, fr, x.a[1], m - n));
      for (size_t k = 0; k < r.size(); k++) fr[x.dst + k] = r[k];
      break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      auto *rm = cast<AtomicRMWInst>(x.I);
      uint64_t p = conc(get(C, fr, x.a[0]), 64);
      unsigned w = scalarBits(rm->getValOperand()->getType()), n = w / 8;
      Val o = loadV(p, n, false, w), v = get(C, fr, x.a[1]), r;
      switch (rm->getOperation()) {
      case AtomicRMWInst::Add: r = binop(Instruction::Add, o, v, w); break;
      case AtomicRMWInst::Sub: r = binop(Instruction::Sub, o, v, w); break;
      case AtomicRMWInst::Xchg: r = v; break;
      default: throw EngineError("atomicrmw");
      }
      storeV(p, r, n);
      fr[x.dst] = o;
      break;
    }
    case Instruction::LandingPad: {
      auto *lp = cast<LandingPadInst>(x.I);
      uint64_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) {
        if (!lp->isCatch(i)) continue;
        Constant *c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) sel = 1;
        else {
          uint64_t ti = constInt(c);
          if (ti == pending.tinfo) sel = ti & 0x7fffffff;
          else {
            // std::exception catches any library exception
            if (auto *g = dyn_cast<GlobalValue>(c->stripPointerCasts()))
              if (g->getName() == "_ZTISt9exception" && pending.tinfo == 1) sel = ti & 0x7fffffff;
          }
        }
      }
      fr[x.dst].u = pending.obj;
      fr[x.dst].s = 0;
      fr[x.dst + 1].u = sel;
      fr[x.dst + 1].s = 0;
      if (!sel && !lp->isCleanup()) throw pending;
      break;
    }
    case Instruction::Resume: throw pending;
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<std::vector<Val>> av(x.a.size());
      for (size_t i = 0; i < x.a.size(); i++) for (unsigned k = 0; k < x.an[i]; k++) av[i].push_back(get(C, fr, x.a[i], k));
      std::vector<Val> r;
      try {
        Function *f = x.callee;
        std::string nm = x.cname;
        if (!f && x.intrin == 0) {
          uint64_t a = conc(av.back()[0], 64);
          auto it = fnAt.find(a);
          if (it == fnAt.end()) throw EngineError("indirect call to an unknown address in " + curFnName());
          f = it->second;
          nm = f->getName().str();
          av.pop_back();
        }
        if (f && !f->isDeclaration() && !x.intrin) {
          std::vector<Val> flat;
          for (auto &v : av) for (auto &q : v) flat.push_back(q);
          // byval arguments
          size_t fi = 0;
          auto *cb = cast<CallBase>(x.I);
          for (unsigned i = 0; i < cb->arg_size() && i < av.size(); i++) {
            if (cb->isByValArgument(i)) {
              Type *bt = cb->getParamByValType(i);
              uint64_t n = DL->getTypeAllocSize(bt);
              uint64_t p = galloc(n, 16);
              gmemcpy(p, flat[fi].u, n);
              flat[fi].u = p;
              allocas.push_back({p, n});
            }
            fi += av[i].size();
          }
          r = callFn(f, flat);
        } else
          r = external(x, av, nm);
      } catch (GuestThrow &g) {
        if (x.op == Instruction::Invoke) {
          pending = g;
          takeEdge(x.ef);
          ip = C->blockStart[x.f];
          break;
        }
        throw;
      }
      for (unsigned k = 0; k < x.nd && k < r.size(); k++) fr[x.dst + k] = r[k];
      if (x.op == Instruction::Invoke) {
        takeEdge(x.et);
        ip = C->blockStart[x.t];
      }
      break;
    }
    default:
      throw EngineError(std::string("instruction ") + x.I->getOpcodeName() + " in " + curFnName());
    }
  }
}
static std::vector<Val> callFn(Function *f, std::vector<Val> &args) { return execFn(compileFn(f), args); }

static Val mk(uint64_t u) { Val v; v.u = u; return v; }
static Val fun1(Op o, const Val &a, double (*nat)(double)) {
  if (!a.s) return mk(asU(nat(asD(a.u))));
  if (o == R_COS) { // the cosine of a third of an angle whose cosine is known
    const Node t = P.n(a.s);
    E ang = 0;
    if (t.op == R_DIV && P.op(t.b) == R_CONST && P.qs[P.n(t.b).x] == 3) ang = t.a;
    auto third = [&](E e) { return P.op(e) == R_CONST && std::fabs(P.qs[P.n(e).x].get_d() * 3 - 1) < 1e-15; };
    if (t.op == R_MUL && third(t.a)) ang = t.b;
    if (t.op == R_MUL && third(t.b)) ang = t.a;
    if (ang) {
      const Node g = P.n(ang);
      auto hyp = [&](E x, E y) { return P.fn1(R_SQRT, P.add(P.mul(x, x), P.mul(y, y))); };
      if (g.op == R_ATAN) return fromReal(P.fn1(R_TRI, P.div(P.num(1), hyp(P.num(1), g.a))));
      if (g.op == R_ATAN2) return fromReal(P.fn1(R_TRI, P.div(g.b, hyp(g.a, g.b))));
      if (g.op == R_ACOS) return fromReal(P.fn1(R_TRI, g.a));
    }
  }
  return fromReal(P.fn1(o, a.s));
}
static std::map<std::string, int> nameUse;
static std::string uniq(const std::string &n) {
  int k = nameUse[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static Val fmaxmin(const Val &a, const Val &b, bool mx) {
  if (!a.s && !b.s) { double x = asD(a.u), y = asD(b.u); return mk(asU(mx ? std::fmax(x, y) : std::fmin(x, y))); }
  bool o;
  if (infCmp(CmpInst::FCMP_OLT, a, b, o)) return (o == mx) ? b : a;
  E x = liftReal(a), y = liftReal(b), c = P.lt(x, y);
  if (optIte) return fromReal(mx ? P.rite(c, y, x) : P.rite(c, x, y));
  bool lt = decide(c);
  return (lt == mx) ? b : a;
}

static std::set<std::string> unknownExt;
static std::vector<Val> external(Ins &x, std::vector<std::vector<Val>> &a, const std::string &name) {
  auto D = [&](int i) -> Val & { return a[i][0]; };
  auto U = [&](int i) -> uint64_t { return conc(a[i][0], 64); };
  auto one = [](Val v) { return std::vector<Val>{v}; };
  switch (x.intrin) {
  case 0: break;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: gmemcpy(U(0), U(1), U(2)); return {};
  case Intrinsic::memset: gmemset(U(0), U(1), U(2)); return {};
  case Intrinsic::lifetime_start: {
    uint64_t n = U(0), p = U(1);
    if (n == ~0ull) return {};
    uint64_t o = off(p);
    for (uint64_t i = o; i < o + n; i++) shadow[i] = 0;
    memset(mst + o, 1, n);
    return {};
  }
  case Intrinsic::lifetime_end: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stackrestore:
  case Intrinsic::invariant_end:
    return {};
  case Intrinsic::stacksave: case Intrinsic::invariant_start: return one(Val());
  case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return one(D(0));
  case Intrinsic::is_constant: return one(mk(0));
  case Intrinsic::objectsize: return one(mk(~0ull));
  case Intrinsic::trap: throw PathEnd{"trap in " + curFnName(), true};
  case Intrinsic::fabs: {
    std::vector<Val> r;
    for (auto &v : a[0]) {
      if (!v.s) r.push_back(x.kind == 2 ? mk(asUF(std::fabs(asF(v.u)))) : mk(asU(std::fabs(asD(v.u)))));
      else {
        E c = P.lt(v.s, P.num(0));
        int q = NM->quick(c);
        if (q >= 0) r.push_back(fromReal(q ? P.neg(v.s) : v.s));
        else if (optIte) r.push_back(fromReal(P.rite(c, P.neg(v.s), v.s)));
        else r.push_back(fromReal(decide(c) ? P.neg(v.s) : v.s));
      }
    }
    return r;
  }
  case Intrinsic::sqrt: return one(fun1(R_SQRT, D(0), std::sqrt));
  case Intrinsic::exp: return one(fun1(R_EXP, D(0), std::exp));
  case Intrinsic::log: return one(fun1(R_LOG, D(0), std::log));
  case Intrinsic::sin: return one(fun1(R_SIN, D(0), std::sin));
  case Intrinsic::cos: return one(fun1(R_COS, D(0), std::cos));
  case Intrinsic::pow:
    if (!D(0).s && !D(1).s) return one(mk(asU(std::pow(asD(D(0).u), asD(D(1).u)))));
    return one(fromReal(P.pow(liftReal(D(0)), liftReal(D(1)))));
  case Intrinsic::powi: {
    int e = (int)U(1);
    if (!D(0).s) return one(mk(asU(std::pow(asD(D(0).u), e))));
    return one(fromReal(P.pow(liftReal(D(0)), P.num(e))));
  }
  case Intrinsic::fmuladd: case Intrinsic::fma: {
    Val t = fbin(Instruction::FMul, D(0), D(1));
    return one(fbin(Instruction::FAdd, t, D(2)));
  }
  case Intrinsic::copysign: {
    if (!D(0).s && !D(1).s) return one(mk(asU(std::copysign(asD(D(0).u), asD(D(1).u)))));
    E m = liftReal(D(0));
    bool ng = NM->quick(P.lt(m, P.num(0))) == 0 ? false : decide(P.lt(m, P.num(0)));
    if (ng) m = P.neg(m);
    bool sn = D(1).s ? decide(P.lt(D(1).s, P.num(0))) : std::signbit(asD(D(1).u));
    return one(fromReal(sn ? P.neg(m) : m));
  }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: {
    if (D(0).s) throw EngineError("rounding of a symbolic real in " + curFnName());
    double d = asD(D(0).u);
    d = x.intrin == Intrinsic::floor ? std::floor(d) : x.intrin == Intrinsic::ceil ? std::ceil(d) : x.intrin == Intrinsic::trunc ? std::trunc(d) : x.intrin == Intrinsic::round ? std::round(d) : std::nearbyint(d);
    return one(mk(asU(d)));
  }
  case Intrinsic::maxnum: case Intrinsic::maximum: return one(fmaxmin(D(0), D(1), true));
  case Intrinsic::minnum: case Intrinsic::minimum: return one(fmaxmin(D(0), D(1), false));
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
    int pr = x.intrin == Intrinsic::smax ? CmpInst::ICMP_SGT : x.intrin == Intrinsic::smin ? CmpInst::ICMP_SLT : x.intrin == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
    Val c = icmpV(pr, D(0), D(1), x.bits);
    return one(selectV(c, D(0), D(1), 0, x.bits));
  }
  case Intrinsic::abs: {
    Val c = icmpV(CmpInst::ICMP_SLT, D(0), mk(0), x.bits);
    return one(selectV(c, binop(Instruction::Sub, mk(0), D(0), x.bits), D(0), 0, x.bits));
  }
  case Intrinsic::ctlz: {
    uint64_t v = U(0) & Pool::mask(x.bits);
    int n = 0;
    for (int i = x.bits - 1; i >= 0 && !((v >> i) & 1); i--) n++;
    return one(mk(n));
  }
  case Intrinsic::cttz: {
    uint64_t v = U(0) & Pool::mask(x.bits);
    return one(mk(v ? __builtin_ctzll(v) : x.bits));
  }
  case Intrinsic::ctpop: return one(mk(__builtin_popcountll(U(0) & Pool::mask(x.bits))));
  case Intrinsic::bswap: return one(mk(__builtin_bswap64(U(0)) >> (64 - x.bits)));
  case Intrinsic::fshl: {
    unsigned w = x.bits;
    uint64_t s = U(2) % w, u = U(0) & Pool::mask(w), v = U(1) & Pool::mask(w);
    return one(mk(s ? ((u << s) | (v >> (w - s))) & Pool::mask(w) : u));
  }
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    unsigned w = scalarBits(cast<StructType>(x.I->getType())->getElementType(0));
    uint64_t u = U(0) & Pool::mask(w), v = U(1) & Pool::mask(w);
    bool o = false;
    uint64_t r = 0;
    __int128 su = Pool::sx(u, w), sv = Pool::sx(v, w), sr = 0;
    unsigned __int128 ur = 0;
    switch (x.intrin) {
    case Intrinsic::umul_with_overflow: ur = (unsigned __int128)u * v; o = ur > Pool::mask(w); r = (uint64_t)ur; break;
    case Intrinsic::uadd_with_overflow: ur = (unsigned __int128)u + v; o = ur > Pool::mask(w); r = (uint64_t)ur; break;
    case Intrinsic::usub_with_overflow: o = u < v; r = u - v; break;
    case Intrinsic::smul_with_overflow: sr = su * sv; r = (uint64_t)sr; o = sr != (__int128)Pool::sx(r & Pool::mask(w), w); break;
    case Intrinsic::sadd_with_overflow: sr = su + sv; r = (uint64_t)sr; o = sr != (__int128)Pool::sx(r & Pool::mask(w), w); break;
    default: sr = su - sv; r = (uint64_t)sr; o = sr != (__int128)Pool::sx(r & Pool::mask(w), w); break;
    }
    return {mk(r & Pool::mask(w)), mk(o)};
  }
  case Intrinsic::usub_sat: {
    uint64_t u = U(0), v = U(1);
    return one(mk(u > v ? u - v : 0));
  }
  case Intrinsic::uadd_sat: {
    uint64_t u = U(0) & Pool::mask(x.bits), v = U(1) & Pool::mask(x.bits);
    return one(mk(u + v > Pool::mask(x.bits) || u + v < u ? Pool::mask(x.bits) : u + v));
  }
  case Intrinsic::eh_typeid_for: return one(mk(U(0) & 0x7fffffff));
  case Intrinsic::is_fpclass: {
    Val &v = D(0);
    if (v.s) return one(mk(0));
    double d = asD(v.u);
    uint64_t m = U(1);
    bool r = ((m & 3) && std::isnan(d)) || ((m & 0x204) && std::isinf(d)) || ((m & 0x1f8) && std::isfinite(d));
    return one(mk(r));
  }
  case -1: return {Val()};
  default: {
    if (x.intrin == Intrinsic::vector_reduce_fadd || x.intrin == Intrinsic::vector_reduce_add)
      throw EngineError("vector reduce");
    throw EngineError("intrinsic " + name);
  }
  }

  // ---------------- harness interface
  if (name == "__sx_real") {
    std::string n = cstr(U(0));
    double lo = asD(D(1).u), hi = asD(D(2).u);
    n = uniq(n);
    if (optExact && lo == hi) return one(fromReal(P.num(lo)));
    return one(fromReal(P.realVar(n, std::isfinite(lo) && lo > -1e300, lo, std::isfinite(hi) && hi < 1e300, hi)));
  }
  if (name == "__sx_int") {
    std::string n = uniq(cstr(U(0)));
    int lo = (int)U(1), hi = (int)U(2);
    if (lo == hi) return one(mk((uint32_t)lo));
    return one(fromInt(P.intVar(n, 32, lo, hi)));
  }
  if (name == "__sx_bool") return one(fromBool(P.boolVar(uniq(cstr(U(0))))));
  if (name == "__sx_fork") return one(mk(conc(D(0), 32)));
  if (name == "__sx_assume") {
    E c = liftBool(D(0));
    if (P.op(c) == B_FALSE) throw PathEnd{"assume", false};
    if (P.op(c) == B_TRUE) return {};
    if (!inPrefix()) {
      int r = feasible(c);
      if (r == 0) throw PathEnd{"assume", false};
    }
    addPC(c);
    return {};
  }
  if (name == "__sx_check") {
    S.obligations++;
    E c = liftBool(D(0));
    std::string m = cstr(U(1));
    doCheck(c, m);
    if (P.op(c) == B_FALSE) throw PathEnd{"check failed", false};
    return {};
  }
  if (name == "__sx_check_eq" || name == "__sx_same") {
    S.obligations++;
    std::string m = cstr(U(2));
    if (!D(0).s && !D(1).s) {
      double p = asD(D(0).u), q = asD(D(1).u);
      bool ok = std::fabs(p - q) <= 1e-9 * (std::fabs(p) + std::fabs(q)) + 1e-12 + nativeScale * 1e-9 || (std::isinf(p) && p == q);
      doCheck(ok ? P.T() : P.F(), m);
      return {};
    }
    if ((!D(0).s && !std::isfinite(asD(D(0).u))) || (!D(1).s && !std::isfinite(asD(D(1).u)))) { doCheck(P.F(), m); return {}; }
    doCheck(P.eq(liftReal(D(0)), liftReal(D(1))), m);
    return {};
  }
  if (name == "__sx_check_tol") {
    S.obligations++;
    std::string m = cstr(U(3));
    double tol = asD(D(2).u);
    if (!D(0).s && !D(1).s) {
      doCheck(std::fabs(asD(D(0).u) - asD(D(1).u)) <= tol ? P.T() : P.F(), m);
      return {};
    }
    E d = P.sub(liftReal(D(0)), liftReal(D(1)));
    doCheck(P.le(d, P.num(tol)), m);
    doCheck(P.le(P.num(-tol), d), m);
    return {};
  }
  if (name == "__sx_uf") {
    std::string n = cstr(U(0));
    int k = (int)U(1);
    uint64_t p = U(2);
    std::vector<E> args;
    for (int i = 0; i < k; i++) args.push_back(liftReal(loadV(p + 8 * i, 8, true, 64)));
    return one(fromReal(P.uf(n + "_" + std::to_string((int)U(3)), args)));
  }
  if (name == "__sx_deriv") {
    if (!D(1).s || P.op(D(1).s) != R_VAR) throw EngineError("derivative by a non-variable");
    if (!D(0).s) return one(mk(0));
    return one(fromReal(P.deriv(D(0).s, D(1).s)));
  }
  if (name == "__sx_depends") {
    if (!D(0).s || !D(1).s) return one(mk(0));
    for (E v : varsOfC(D(0).s)) if (v == D(1).s) return one(mk(1));
    return one(mk(0));
  }
  if (name == "__sx_native") return one(mk(0));
  if (name == "__sx_issym") return one(mk(D(0).s != 0));
  if (name == "__sx_scale") { nativeScale = asD(D(0).u); return {}; }
  if (name == "__sx_param") {
    std::string n = cstr(U(0));
    if (!params.count(n)) throw EngineError("missing parameter " + n);
    return one(mk((uint32_t)params[n]));
  }
  if (name == "__sx_expect_throw") { throwExpected = true; return {}; }
  if (name == "__sx_note") { if (notes.size() < 50) notes.push_back(cstr(U(0))); return {}; }
  if (name == "__sx_printreal") {
    Val v = D(1);
    std::cerr << cstr(U(0)) << " = ";
    if (!v.s) std::cerr << asD(v.u) << "\n";
    else {
      try {
        RF r = NM->norm(v.s);
        std::set<uint32_t> us;
        std::cerr << NM->pstr(r.num, us).substr(0, 2000);
        for (auto &f : r.den) std::cerr << " / (" << NM->pstr(NM->facs[f.first], us).substr(0, 500) << ")^" << f.second;
        std::cerr << "   [terms " << r.num.t.size() << "]";
        for (uint32_t u : us) if (NM->atoms[u].k == A_VAR) std::cerr << " a" << u << "=" << P.vars[P.n(NM->atoms[u].src).x].name; else std::cerr << " a" << u << ":" << NM->atoms[u].fname << NM->atoms[u].deg;
        std::cerr << "\n";
      } catch (TooBig &e) { std::cerr << "too big\n"; NM->work = 0; }
    }
    return {};
  }

  // ---------------- libc / libstdc++
  if (name == "malloc" || name == "_Znwm" || name == "_Znam") {
    uint64_t n = U(0);
    if (n > (1ull << 28)) throw PathEnd{"huge allocation", true};
    return one(mk(galloc(n, 16)));
  }
  if (name == "_ZnwmSt11align_val_t" || name == "_ZnamSt11align_val_t") return one(mk(galloc(U(0), U(1))));
  if (name == "aligned_alloc") return one(mk(galloc(U(1), U(0))));
  if (name == "posix_memalign") {
    uint64_t p = galloc(U(2), U(1));
    storeV(U(0), mk(p), 8);
    return one(mk(0));
  }
  if (name == "calloc") {
    uint64_t n = U(0) * U(1), p = galloc(n);
    gmemset(p, 0, n);
    return one(mk(p));
  }
  if (name == "realloc") {
    uint64_t p = U(0), n = U(1), q = galloc(n);
    if (p) {
      uint64_t o = off(p), k = 0;
      while (k < n && mst[o + k]) k++;
      gmemcpy(q, p, k);
    }
    return one(mk(q));
  }
  if (name == "free" || name.rfind("_ZdlPv", 0) == 0 || name.rfind("_ZdaPv", 0) == 0) {
    uint64_t p = U(0);
    if (!p) return {};
    uint64_t o = off(p);
    if (emptyAlloc.erase(o)) return {};
    if (o >= ARENA || !mst[o]) throw PathEnd{"free of an invalid pointer in " + curFnName(), true};
    uint64_t k = o;
    while (mst[k]) { mst[k] = 0; shadow[k] = 0; k++; }
    return {};
  }
  if (name == "memcpy" || name == "memmove") { gmemcpy(U(0), U(1), U(2)); return one(D(0)); }
  if (name == "memset") { gmemset(U(0), U(1), U(2)); return one(D(0)); }
  if (name == "strlen") return one(mk(cstr(U(0)).size()));
  if (name == "strcmp") return one(mk((uint32_t)strcmp((char *)U(0), (char *)U(1))));
  if (name == "memcmp" || name == "bcmp") return one(mk((uint32_t)memcmp((char *)U(0), (char *)U(1), U(2))));
  if (name == "memchr") { void *r = memchr((void *)U(0), (int)U(1), U(2)); return one(mk((uint64_t)r)); }
  if (name == "__assert_fail") throw PathEnd{"assertion failed: " + cstr(U(0)).substr(0, 160) + " in " + curFnName(), true};
  if (name == "abort" || name == "exit" || name == "_ZSt9terminatev" || name == "__clang_call_terminate") throw PathEnd{"abort in " + curFnName(), true};
  static const std::map<std::string, std::pair<Op, double (*)(double)>> f1 = {
      {"sqrt", {R_SQRT, [](double d) { return std::sqrt(d); }}}, {"cbrt", {R_CBRT, [](double d) { return std::cbrt(d); }}},
      {"exp", {R_EXP, [](double d) { return std::exp(d); }}},    {"log", {R_LOG, [](double d) { return std::log(d); }}},
      {"sin", {R_SIN, [](double d) { return std::sin(d); }}},    {"cos", {R_COS, [](double d) { return std::cos(d); }}},
      {"atan", {R_ATAN, [](double d) { return std::atan(d); }}}, {"acos", {R_ACOS, [](double d) { return std::acos(d); }}}, {"tanh", {R_TANH, [](double d) { return std::tanh(d); }}}};
  auto it = f1.find(name);
  if (it != f1.end()) return one(fun1(it->second.first, D(0), it->second.second));
  if (name == "pow") {
    if (!D(0).s && !D(1).s) return one(mk(asU(std::pow(asD(D(0).u), asD(D(1).u)))));
    return one(fromReal(P.pow(liftReal(D(0)), liftReal(D(1)))));
  }
  if (name == "hypot") {
    if (!D(0).s && !D(1).s) return one(mk(asU(std::hypot(asD(D(0).u), asD(D(1).u)))));
    E p = liftReal(D(0)), q = liftReal(D(1));
    return one(fromReal(P.fn1(R_SQRT, P.add(P.mul(p, p), P.mul(q, q)))));
  }
  if (name == "cabs") {
    if (!D(0).s && !D(1).s) return one(mk(asU(std::hypot(asD(D(0).u), asD(D(1).u)))));
    E p = liftReal(D(0)), q = liftReal(D(1));
    if (P.isZ(q)) return one(fromReal(P.rite(P.lt(p, P.num(0)), P.neg(p), p)));
    return one(fromReal(P.fn1(R_SQRT, P.add(P.mul(p, p), P.mul(q, q)))));
  }
  if (name == "__divdc3" || name == "__muldc3") { // complex arithmetic: (a+ib) op (c+id)
    E x = liftReal(D(0)), y = liftReal(D(1)), c = liftReal(D(2)), d = liftReal(D(3)), re, im;
    if (name == "__divdc3") {
      E den = P.add(P.mul(c, c), P.mul(d, d));
      re = P.div(P.add(P.mul(x, c), P.mul(y, d)), den);
      im = P.div(P.sub(P.mul(y, c), P.mul(x, d)), den);
    } else {
      re = P.sub(P.mul(x, c), P.mul(y, d));
      im = P.add(P.mul(x, d), P.mul(y, c));
    }
    return {fromReal(re), fromReal(im)};
  }
  if (name == "atan2" && (D(0).s || D(1).s)) return one(fromReal(P.mk(R_ATAN2, liftReal(D(0)), liftReal(D(1)))));
  if (name == "fmax" || name == "fmin") return one(fmaxmin(D(0), D(1), name == "fmax"));
  if (name == "fmod" || name == "atan2" || name == "acos" || name == "asin" || name == "tan" || name == "log10" || name == "ldexp" || name == "log2" || name == "exp2") {
    for (auto &v : a) if (v[0].s) throw EngineError(name + " on a symbolic real in " + curFnName());
    double p = asD(D(0).u), r = 0;
    if (name == "fmod") r = std::fmod(p, asD(D(1).u));
    if (name == "atan2") r = std::atan2(p, asD(D(1).u));
    if (name == "acos") r = std::acos(p);
    if (name == "asin") r = std::asin(p);
    if (name == "tan") r = std::tan(p);
    if (name == "log10") r = std::log10(p);
    if (name == "log2") r = std::log2(p);
    if (name == "exp2") r = std::exp2(p);
    if (name == "ldexp") r = std::ldexp(p, (int)U(1));
    return one(mk(asU(r)));
  }
  if (name == "frexp") {
    if (D(0).s) throw EngineError("frexp on symbolic");
    int e;
    double r = std::frexp(asD(D(0).u), &e);
    storeV(U(1), mk((uint32_t)e), 4);
    return one(mk(asU(r)));
  }
  if (name == "omp_get_num_threads" || name == "omp_get_max_threads" || name == "omp_get_num_procs")
    return one(mk(params.count("threads") ? params["threads"] : 1));
  if (name == "omp_get_thread_num") return one(mk(params.count("thread") ? params["thread"] : 0));
  if (name == "omp_set_num_threads") return {};
  if (name == "omp_get_wtime") return one(mk(asU(0)));
  // ---------------- exceptions
  if (name == "__cxa_allocate_exception") return one(mk(galloc(U(0) + 64, 16)));
  if (name == "__cxa_free_exception") return {};
  if (name == "__cxa_throw") throw GuestThrow{U(0), U(1)};
  if (name == "__cxa_begin_catch") return one(D(0));
  if (name == "__cxa_end_catch") return {};
  if (name == "__cxa_rethrow") throw GuestThrow{0, 1};
  if (name == "__cxa_call_unexpected" ) throw PathEnd{"unexpected exception", true};
  if (name.rfind("_ZSt", 0) == 0 && name.find("__throw_") != std::string::npos) throw GuestThrow{0, 1};
  // ---------------- misc runtime
  if (name == "__cxa_guard_acquire") {
    uint64_t p = U(0);
    return one(mk(*(uint8_t *)p ? 0 : 1));
  }
  if (name == "__cxa_guard_release") { storeV(U(0), mk(1), 1); return {}; }
  if (name == "__cxa_guard_abort") return {};
  if (name == "__cxa_atexit") return one(mk(0));
  if (name == "__cxa_pure_virtual") throw PathEnd{"pure virtual call", true};
  if (name == "puts" || name == "printf" || name == "putchar" || name == "fflush" || name == "fprintf") return one(mk(0));
  if (name == "clock" || name == "time") return one(mk(0));
  if (name == "getenv") return one(mk(0));
  // streams: ignored (output is not part of any property)
  std::string d = demangle(name);
  if (name.rfind("_ZNSo", 0) == 0 || name.rfind("_ZNSt8ios_base", 0) == 0 || name.rfind("_ZSt16__ostream_insert", 0) == 0 ||
      name.rfind("_ZStls", 0) == 0 || name.rfind("_ZSt4endl", 0) == 0 || name.rfind("_ZNSt9basic_ios", 0) == 0 ||
      name.rfind("_ZNKSt5ctype", 0) == 0 || name.rfind("_ZNSt6locale", 0) == 0 || name.rfind("_ZNSt13basic_filebuf", 0) == 0)
    return one(a.empty() || a[0].empty() ? Val() : D(0));
  if (name.rfind("_ZNSt9exceptionD", 0) == 0 || name.rfind("_ZNSt12out_of_range", 0) == 0 || name.rfind("_ZNSt13runtime_error", 0) == 0 ||
      name.rfind("_ZNSt11logic_error", 0) == 0 || name.rfind("_ZNSt9bad_alloc", 0) == 0)
    return one(a.empty() || a[0].empty() ? Val() : D(0));
  throw EngineError("external function " + d + " called from " + curFnName());
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r;
}

static void resetMem() {
  uint64_t hi = std::max(brk_, hiTouched) + 64;
  memset(mst + snapBrk, 0, hi - snapBrk);
  memset(shadow, 0, hi * sizeof(E));
  memset(line, 0, (hi >> 6) + 1);
  memcpy(mem, snapMem.data(), snapBrk);
  memcpy(mst, snapSt.data(), snapBrk);
  for (auto &c : snapShadow) {
    shadow[c.o] = c.e; shsz[c.o] = c.sz;
    line[c.o >> 6] = 1; line[(c.o + c.sz - 1) >> 6] = 1;
  }
  hiTouched = std::max(hiTouched, brk_);
  brk_ = snapBrk;
}

static void writeOut(const std::string &status, const std::string &err) {
  std::ostringstream o;
  o << "{\"status\":\"" << status << "\",\"error\":\"" << jesc(err) << "\"";
  o << ",\"paths\":" << S.paths << ",\"completed\":" << S.completed << ",\"infeasible\":" << S.infeasible
    << ",\"instructions\":" << S.insts << ",\"forks\":" << S.forks << ",\"feasibility_queries\":" << S.feasQ
    << ",\"feasibility_unknown\":" << S.feasUnknown << ",\"checks\":" << S.checks << ",\"trivial\":" << S.checksTrivial
    << ",\"normal_form\":" << S.checksNF << ",\"solver_checks\":" << S.checksSolver << ",\"unknown\":" << S.unknown
    << ",\"solver_seconds\":" << S.solverT << ",\"expr_nodes\":" << P.nodes.size() << ",\"inputs\":" << P.vars.size()
    << ",\"atoms\":" << NM->atoms.size() << ",\"throws\":" << S.throws << ",\"wall\":" << nowS() - tStart << ",\"witness\":\"" << witnessHow << "\"";
  o << ",\"witness_model\":{";
  bool f0 = true;
  for (auto &kv : witness) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", std::isfinite(kv.second) ? kv.second : 0.);
    o << (f0 ? "" : ",") << "\"" << jesc(kv.first) << "\":" << b;
    f0 = false;
  }
  o << "}";
  o << ",\"functions\":[";
  bool f = true;
  std::set<std::string> names;
  for (auto &kv : fns) if (kv.second->calls) names.insert(baseName(kv.first->getName().str()));
  for (auto &n : names) {
    if (n.find("Eigen::") != std::string::npos || n.rfind("std::", 0) == 0 || n.find("__gnu") != std::string::npos || n.find('<') != std::string::npos || n.find("operator") != std::string::npos) continue;
    o << (f ? "" : ",") << "\"" << jesc(n) << "\"";
    f = false;
  }
  o << "],\"messages\":{";
  f = true;
  for (auto &kv : msgCount) { o << (f ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; f = false; }
  o << "},\"findings\":[";
  f = true;
  for (auto &x : findings) {
    o << (f ? "" : ",") << "{\"msg\":\"" << jesc(x.msg) << "\",\"verdict\":\"" << x.verdict << "\",\"path\":\"" << x.path << "\",\"models\":[";
    bool g = true;
    for (auto &m : x.models) {
      o << (g ? "" : ",") << "{";
      g = false;
      bool h = true;
      for (auto &kv : m) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", std::isfinite(kv.second) ? kv.second : 0.);
        o << (h ? "" : ",") << "\"" << jesc(kv.first) << "\":" << b;
        h = false;
      }
      o << "}";
    }
    o << "]}";
    f = false;
  }
  o << "],\"notes\":[";
  f = true;
  for (auto &n : notes) { o << (f ? "" : ",") << "\"" << jesc(n) << "\""; f = false; }
  o << "]}\n";
  if (optOut.empty()) std::cout << o.str();
  else { std::ofstream(optOut) << o.str(); }
}

int main(int argc, char **argv) {
  std::string bc;
  std::vector<std::pair<std::string, std::string>> reds;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (s == "--entry") optEntry = nxt();
    else if (s == "--param") { std::string p = nxt(); size_t e = p.find('='); params[p.substr(0, e)] = atol(p.c_str() + e + 1); }
    else if (s == "--out") optOut = nxt();
    else if (s == "--dump") optDump = nxt();
    else if (s == "--feas") optFeasT = atof(nxt().c_str());
    else if (s == "--timeout") optCheckT = atof(nxt().c_str());
    else if (s == "--wall") optWall = atof(nxt().c_str());
    else if (s == "--paths") optMaxPaths = atoi(nxt().c_str());
    else if (s == "--ite") optIte = true;
    else if (s == "--exact") optExact = true;
    else if (s == "-v") optVerbose = true;
    else if (s == "--seed") optSeed = atol(nxt().c_str());
    else if (s == "--stub") { std::string p = nxt(); size_t e = p.find('='); reds.push_back({p.substr(0, e), p.substr(e + 1)}); }
    else bc = s;
  }
  struct rlimit rl { 1024ull << 20, 1024ull << 20 };
  struct rlimit cur;
  getrlimit(RLIMIT_STACK, &cur);
  if (cur.rlim_cur != RLIM_INFINITY && cur.rlim_cur < (900ull << 20)) {
    if (cur.rlim_max != RLIM_INFINITY && cur.rlim_max < rl.rlim_cur) rl.rlim_cur = cur.rlim_max;
    rl.rlim_max = cur.rlim_max;
    if (!getenv("SX_REEXEC")) {
      setrlimit(RLIMIT_STACK, &rl);
      setenv("SX_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  auto mapIt = [](uint64_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
  mem = (uint8_t *)mapIt(ARENA);
  mst = (uint8_t *)mapIt(ARENA);
  shadow = (E *)mapIt(ARENA * sizeof(E));
  shsz = (uint8_t *)mapIt(ARENA);
  line = (uint8_t *)mapIt(ARENA >> 6);
  brk_ = 4096;
  Norm nm(P);
  NM = &nm;
  P.T(); P.F();
  Solver z({"z3-new", "-in", "-smt2"});
  Z = &z;
  rng.seed(optSeed);
  LLVMContext ctx;
  SMDiagnostic diag;
  auto mod = parseIRFile(bc, diag, ctx);
  if (!mod) { diag.print("symex", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  tStart = nowS();
  std::string status = "ok", err;
  try {
    for (auto &r : reds) {
      Function *t = M->getFunction(r.second);
      if (!t) throw EngineError("stub target " + r.second + " missing");
      bool found = false;
      for (auto &f : *M) if (baseName(f.getName().str()) == r.first || arityName(f.getName().str()) == r.first) found = true;
      if (found) redirect[r.first] = t;
    }
    for (auto &g : M->globals()) addrOf(&g);
    // static initialisation, in link order
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> cs;
        for (auto &o : ca->operands()) {
          auto *st = cast<ConstantStruct>(o.get());
          if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
            cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto &p, auto &q) { return p.first < q.first; });
        for (auto &c : cs) { std::vector<Val> no; callFn(c.second, no); }
      }
    Function *entry = M->getFunction(optEntry);
    if (!entry) throw EngineError("no entry " + optEntry);
    // address every function first so the snapshot is stable
    for (auto &f : *M) addrOf(&f);
    snapBrk = (brk_ + 63) & ~63ull;
    brk_ = snapBrk;
    for (uint64_t i = 0; i < snapBrk; i++) if (shadow[i]) snapShadow.push_back({i, shadow[i], shsz[i]});
    inStatic = false;
    snapMem.assign(mem, mem + snapBrk);
    snapSt.assign(mst, mst + snapBrk);
    prefixLen = 0;
    uint64_t undef0 = undefCount;
    while (true) {
      if (S.paths >= (uint64_t)optMaxPaths) { status = "limit"; err = "path limit"; break; }
      if (nowS() - tStart > optWall) { status = "limit"; err = "time limit"; break; }
      resetMem();
      pc.clear(); pcSet.clear(); decPos = 0; callStack.clear(); throwExpected = false; nameUse.clear(); undefCount = undef0; nativeScale = 0;
      S.paths++;
      bool complete = false;
      try {
        std::vector<Val> no;
        callFn(entry, no);
        complete = true;
      } catch (PathEnd &p) {
        if (p.bad) {
          // a reachable fault on a feasible path
          Finding f;
          f.msg = p.why;
          Eval ev(P);
          std::map<std::string, double> m;
          int r = pc.empty() ? 1 : solve(pc, optCheckT, &m);
          if (r != 0) {
            f.verdict = r > 0 ? "sat" : "unknown";
            int got = 0;
            for (int i = 0; i < 4000 && got < 3; i++) if (samplePoint(ev, rng, i % 3)) { f.models.push_back(pointOf(ev)); got++; }
            for (int i = 0; i < 2 && r > 0; i++) {
              samplePoint(ev, rng, i);
              auto pt = pointOf(ev);
              for (auto &kv : m) pt[kv.first] = kv.second;
              f.models.push_back(pt);
            }
            findings.push_back(f);
          } else
            S.infeasible++;
        } else if (p.why == "infeasible" || p.why == "assume") S.infeasible++;
      } catch (GuestThrow &g) {
        S.throws++;
        if (!throwExpected) {
          Finding f;
          f.msg = "uncaught exception";
          Eval ev(P);
          std::map<std::string, double> m;
          int r = pc.empty() ? 1 : solve(pc, optCheckT, &m);
          if (r != 0) {
            f.verdict = r > 0 ? "sat" : "unknown";
            samplePoint(ev, rng, 0);
            auto pt = pointOf(ev);
            for (auto &kv : m) pt[kv.first] = kv.second;
            f.models.push_back(pt);
            findings.push_back(f);
          }
        } else
          complete = true;
      } catch (TooBig &t) {
        status = "error"; err = std::string("too big: ") + t.what();
        break;
      }
      if (timedOut) { status = "limit"; err = "time limit"; break; }
      if (complete) {
        S.completed++;
        if (S.feasQ + S.checksNF + S.checksSolver == 0) { // nothing needed the solver yet: have it confirm that the path is reachable
          S.feasQ++;
          if (solve(pc, 10, nullptr) == 0) throw EngineError("a completed path is unreachable");
        }
        if (!sawWitness) {
          // reachability witness: the path condition of a completed path is satisfiable
          Eval ev(P);
          for (int i = 0; i < 3000 && !sawWitness; i++)
            if (samplePoint(ev, rng, i % 3)) { sawWitness = true; witness = pointOf(ev); witnessHow = "point"; }
          if (!sawWitness) {
            std::map<std::string, double> m;
            int r = solve(pc, 10, &m);
            if (r > 0) { sawWitness = true; witnessHow = "solver"; samplePoint(ev, rng, 0); witness = pointOf(ev); for (auto &kv : m) witness[kv.first] = kv.second; }
          }
        }
      }
      if (findings.size() >= 12) { break; }
      // next path
      while (!dec.empty() && dec.back().alts.empty()) dec.pop_back();
      if (dec.empty()) break;
      Decision &d = dec.back();
      d.val = d.alts.front();
      d.alts.erase(d.alts.begin());
      prefixLen = dec.size();
    }
  } catch (EngineError &e) {
    status = "error";
    err = e.what();
  } catch (std::exception &e) {
    status = "error";
    err = std::string("exception: ") + e.what();
  } catch (PathEnd &p) {
    status = "error";
    err = "static initialisation: " + p.why;
  } catch (GuestThrow &) {
    status = "error";
    err = "static initialisation threw";
  }
  writeOut(status, err);
  _exit(status == "ok" ? 0 : 2);
}
