#include <thread>
#include <unistd.h>
// Symbolic executor for LLVM 18 bitcode.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <functional>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
#include <sys/resource.h>
using namespace llvm;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct SV { uint64_t c = 0; Expr* e = nullptr; };
static inline Expr* toE(const SV& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline SV fromE(Expr* e) { SV r; if (isC(e) && e->w <= 64) r.c = (uint64_t)e->c; else r.e = e; return r; }
static inline SV cst(uint64_t v) { SV r; r.c = v; return r; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ memory
struct SymByte { Expr* e; uint8_t i; };
struct SymChunk { SymByte b[64]; };
struct Obj {
  uint64_t size = 0;
  std::vector<uint8_t> d;
  std::vector<std::unique_ptr<SymChunk>> sym;
  bool freed = false, ro = false;
  char kind = 'h';
  const void* what = nullptr;
  Obj() {}
  Obj(const Obj& o) : size(o.size), d(o.d), freed(o.freed), ro(o.ro), kind(o.kind), what(o.what) {
    sym.resize(o.sym.size());
    for (size_t i = 0; i < o.sym.size(); i++) if (o.sym[i]) sym[i].reset(new SymChunk(*o.sym[i]));
  }
  SymByte* at(uint64_t off) { if (sym.empty()) return nullptr; auto& c = sym[off >> 6]; if (!c) return nullptr; SymByte* s = &c->b[off & 63]; return s->e ? s : nullptr; }
  bool rangeSym(uint64_t off, uint64_t n) {
    if (sym.empty()) return false;
    for (uint64_t ch = off >> 6; ch <= (off + n - 1) >> 6; ch++) if (sym[ch]) {
      for (uint64_t i = 0; i < 64; i++) { uint64_t p = (ch << 6) + i; if (p >= off && p < off + n && sym[ch]->b[i].e) return true; }
    }
    return false;
  }
  void clearSym(uint64_t off, uint64_t n) {
    if (sym.empty() || !n) return;
    for (uint64_t p = off; p < off + n; p++) { auto& c = sym[p >> 6]; if (c) c->b[p & 63].e = nullptr; else p |= 63; }
  }
  void setSym(uint64_t off, Expr* e, uint8_t i) {
    if (sym.empty()) sym.resize((size >> 6) + 1);
    auto& c = sym[off >> 6];
    if (!c) { c.reset(new SymChunk); memset(c.get(), 0, sizeof(SymChunk)); }
    c->b[off & 63] = {e, i};
  }
  Expr* byteE(uint64_t off) { SymByte* s = at(off); if (s) return mkExtract(s->e, s->i * 8, 8); return mkConst(d[off], 8); }
  SV load(uint64_t off, unsigned n) {
    if (!rangeSym(off, n)) { if (n <= 8) { uint64_t v = 0; memcpy(&v, &d[off], n); return cst(v); } u128 v = 0; memcpy(&v, &d[off], n); SV r; r.e = mkConst(v, n * 8); return r; }
    SymByte* s0 = at(off);
    if (s0 && s0->i == 0 && s0->e->w == n * 8) {
      bool ok = true;
      for (unsigned i = 1; i < n && ok; i++) { SymByte* s = at(off + i); ok = s && s->e == s0->e && s->i == i; }
      if (ok) return fromE(s0->e);
    }
    Expr* r = byteE(off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(byteE(off + i), r);
    return fromE(r);
  }
  void store(uint64_t off, SV v, unsigned n) {
    if (!v.e) { clearSym(off, n); memcpy(&d[off], &v.c, n > 8 ? 8 : n); if (n > 8) memset(&d[off + 8], 0, n - 8); return; }
    if (isC(v.e)) { clearSym(off, n); u128 c = v.e->c; memcpy(&d[off], &c, n); return; }
    for (unsigned i = 0; i < n; i++) setSym(off + i, v.e, i);
  }
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[256]; };
struct Memory {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint64_t n = 1;  // object 0 is null
  Memory() { ch.push_back(std::make_shared<Chunk>()); }
  uint64_t add(ObjP o) {
    uint64_t id = n++;
    if ((id >> 8) >= ch.size()) ch.push_back(std::make_shared<Chunk>());
    auto& c = ch[id >> 8];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[id & 255] = std::move(o);
    return id;
  }
  Obj* get(uint64_t id) { if (id == 0 || id >= n) return nullptr; return ch[id >> 8]->o[id & 255].get(); }
  Obj* mut(uint64_t id) {
    auto& c = ch[id >> 8];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto& o = c->o[id & 255];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
};

// ------------------------------------------------------------------ code
struct Opnd { int slot = -1; std::vector<SV> k; };
enum Kind : uint16_t { K_BIN, K_FBIN, K_ICMP, K_FCMP, K_SELECT, K_BR, K_CBR, K_SWITCH, K_CALL, K_RET, K_ALLOCA, K_LOAD, K_STORE, K_GEP, K_CAST, K_COPY, K_INSERT, K_SHUF, K_EXTELT_DYN, K_INSELT_DYN, K_FNEG, K_UNREACH, K_RMW, K_CMPX, K_NOP, K_UNSUP };
struct FuncInfo;
struct Ins {
  Kind k; uint16_t sub = 0; uint16_t w = 0, kw = 0;
  int dst = -1; unsigned n = 1;
  std::vector<Opnd> ops;
  std::vector<uint64_t> aux;   // GEP scales, switch values, scalar layout
  std::vector<int> tgt;
  Function* callee = nullptr;
  const Instruction* I = nullptr;
  int handler = -1;
};
struct Phi { int dst; unsigned n; Opnd o; };
struct Blk { std::vector<Ins> ins; std::map<int, std::vector<Phi>> phis; bool seen = false; };
struct FuncInfo { Function* F; std::vector<Blk> b; int nslots = 0; std::vector<std::pair<int, unsigned>> args; std::string name; bool counted = false; };

struct Frame {
  FuncInfo* f; std::vector<SV> r; int blk = 0, prev = -1; unsigned idx = 0; int retDst = -1; unsigned retN = 0; std::vector<uint64_t> allocas; std::vector<std::vector<SV>> varargs;
};
enum TStat { T_RUN, T_LOCK, T_WAIT, T_TWAIT, T_JOIN, T_DONE };
typedef std::vector<uint32_t> VC;  // vector clock
struct Thread { std::vector<Frame> st; TStat s = T_RUN; uint64_t obj = 0, ver = 0; bool resumed = false; VC vc; };
struct Mtx { int owner = -1; uint64_t ver = 0; VC vc; };
struct Shadow { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; };
typedef std::unordered_map<uint64_t, Shadow> ShadowMap;
struct InputRec { uint32_t var; };
struct Observation { std::string name; Expr* e; };

struct State {
  Memory mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Expr*> pc;
  Model model;
  bool modelOk = true;
  std::vector<uint32_t> inputs;
  std::vector<Observation> obs;
  std::map<uint64_t, Mtx> mtx;
  int preempt = 0;
  int crashOk = 0;      // CHECK failures end the path silently
  int timeouts = 0;
  std::vector<int> sched;
  std::map<uint64_t, VC> atomVC;
  std::shared_ptr<ShadowMap> shadow;
  uint64_t steps = 0;
  uint64_t forks = 0;
  Frame& fr() { return th[cur].st.back(); }
};
typedef std::unique_ptr<State> StateP;

struct Violation { std::string label, kind, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; std::vector<int> sched; };

static Module* M;
static const DataLayout* DL;
static std::map<const GlobalVariable*, uint64_t> gvAddr;
static std::map<const Function*, uint64_t> fnAddr;
static std::map<uint64_t, Function*> addrFn;
static std::unordered_map<const Function*, std::unique_ptr<FuncInfo>> infos;
static std::vector<StateP> work;
static std::vector<Violation> violations;
static std::map<std::string, uint64_t> assertHits, assertProved, reachHits;
static std::set<std::string> violLabels, incomplete;
static std::vector<std::string> sampleJson;
static std::set<std::string> funcsSeen;
static uint64_t gSteps = 0, gPaths = 0, gForks = 0, gPathsKilledByAssume = 0, gCrashPaths = 0, gDeadlocks = 0;
static int gMaxPreempt = 2;
static uint64_t gMaxPaths = 0;
static volatile double gDeadline = 0; static double gStart = 0;
static unsigned gSampleN = 5;
static std::map<std::string, long long> gPins;
static bool gStopFirst = false;
static bool gTrace = false;
static uint64_t gConcretizeLimit = 4096;

struct PathEnd { const char* why; };
struct Unsup { std::string m; };

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

// flatten type to scalar (offset, bits)
static void flatten(Type* T, uint64_t off, std::vector<std::pair<uint64_t, unsigned>>& out) {
  if (auto* S = dyn_cast<StructType>(T)) {
    const StructLayout* L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto* A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * es, out);
  } else if (auto* V = dyn_cast<FixedVectorType>(T)) {
    uint64_t es = DL->getTypeSizeInBits(V->getElementType()) / 8;
    if (es == 0) es = 1;  // i1 vectors: only register use is supported
    for (unsigned i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), off + i * es, out);
  } else if (T->isVoidTy()) {
  } else if (T->isPointerTy()) out.push_back({off, 64});
  else if (T->isIntegerTy()) out.push_back({off, T->getIntegerBitWidth()});
  else if (T->isFloatTy()) out.push_back({off, 32});
  else if (T->isDoubleTy()) out.push_back({off, 64});
  else if (T->isX86_FP80Ty()) out.push_back({off, 80});
  else if (T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) {}
  else throw Unsup{"type"};
}
static std::vector<std::pair<uint64_t, unsigned>> flat(Type* T) { std::vector<std::pair<uint64_t, unsigned>> v; flatten(T, 0, v); return v; }
static unsigned scalarBits(Type* T) { if (T->isPointerTy()) return 64; if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (auto* V = dyn_cast<FixedVectorType>(T)) return scalarBits(V->getElementType()); if (T->isX86_FP80Ty()) return 80; return 0; }

static void constVals(const Constant* K, std::vector<SV>& out);
static SV constScalar(const Constant* K) {
  std::vector<SV> v; constVals(K, v); if (v.size() != 1) throw Unsup{"constScalar"}; return v[0];
}
static void constVals(const Constant* K, std::vector<SV>& out) {
  if (auto* I = dyn_cast<ConstantInt>(K)) {
    unsigned w = I->getBitWidth();
    if (w <= 64) out.push_back(cst(I->getZExtValue()));
    else { u128 v = I->getValue().getRawData()[0] | ((u128)I->getValue().getRawData()[1] << 64); SV s; s.e = mkConst(v, w); out.push_back(s); }
  } else if (auto* F = dyn_cast<ConstantFP>(K)) {
    APInt b = F->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) out.push_back(cst(b.getZExtValue())); else out.push_back(cst(0));
  } else if (isa<ConstantPointerNull>(K)) out.push_back(cst(0));
  else if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) {
    for (auto& p : flat(K->getType())) { if (p.second <= 64) out.push_back(cst(0)); else { SV s; s.e = mkConst(0, p.second); out.push_back(s); } }
  } else if (auto* G = dyn_cast<GlobalVariable>(K)) out.push_back(cst(gvAddr.at(G)));
  else if (auto* Fn = dyn_cast<Function>(K)) out.push_back(cst(fnAddr.at(Fn)));
  else if (auto* A = dyn_cast<GlobalAlias>(K)) constVals(A->getAliasee(), out);
  else if (auto* CA = dyn_cast<ConstantAggregate>(K)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) constVals(CA->getOperand(i), out); }
  else if (auto* CD = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constVals(CD->getElementAsConstant(i), out); }
  else if (auto* CE = dyn_cast<ConstantExpr>(K)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* G = cast<GEPOperator>(CE);
        APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"};
        SV b = constScalar(CE->getOperand(0));
        out.push_back(cst(b.c + off.getSExtValue()));
        break;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constVals(CE->getOperand(0), out); break;
      case Instruction::Trunc: { SV a = constScalar(CE->getOperand(0)); out.push_back(cst(a.c & m64(scalarBits(CE->getType())))); break; }
      case Instruction::Sub: { SV a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1)); out.push_back(cst((a.c - b.c) & m64(scalarBits(CE->getType())))); break; }
      case Instruction::Add: { SV a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1)); out.push_back(cst((a.c + b.c) & m64(scalarBits(CE->getType())))); break; }
      case Instruction::ICmp: {
        SV a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1));
        auto p = (CmpInst::Predicate)CE->getPredicate();
        bool r = p == CmpInst::ICMP_EQ ? a.c == b.c : p == CmpInst::ICMP_NE ? a.c != b.c : p == CmpInst::ICMP_ULT ? a.c < b.c : p == CmpInst::ICMP_UGT ? a.c > b.c : throw Unsup{"const icmp"};
        out.push_back(cst(r));
        break;
      }
      default: throw Unsup{std::string("constexpr ") + CE->getOpcodeName()};
    }
  } else throw Unsup{"constant"};
}

#include "decode.inc"
#include "exec.inc"

int main(int argc, char** argv) {
  std::string in, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nxt();
    else if (a == "--real") gRealMode = true;
    else if (a == "--preempt") gMaxPreempt = atoi(nxt().c_str());
    else if (a == "--time") gDeadline = atof(nxt().c_str());
    else if (a == "--qtimeout") gTimeoutMs = atoi(nxt().c_str());
    else if (a == "--exttimeout") gExtTimeoutS = atoi(nxt().c_str());
    else if (a == "--max-paths") gMaxPaths = atoll(nxt().c_str());
    else if (a == "--samples") gSampleN = atoi(nxt().c_str());
    else if (a == "--stop-first") gStopFirst = true;
    else if (a == "--dump") gDumpDir = nxt();
    else if (a == "--trace") gTrace = true;
    else if (a == "--pin") { std::string p = nxt(); size_t q = p.find('='); gPins[p.substr(0, q)] = atoll(p.c_str() + q + 1); }
    else in = a;
  }
  gStart = nowS();
  if (gDeadline > 0) gDeadline += gStart;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(in, err, ctx);
  if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get();
  DL = &M->getDataLayout();
  solverInit();
  // a solver call may overrun its own limit: what was found so far is reported all the same
  if (gDeadline > 0 && !out.empty()) std::thread([out] {
    while (nowS() < gDeadline + 45) usleep(500000);
    incomplete.insert("time budget (solver call did not return)");
    { std::ofstream f(out); f << report() << "\n"; }
    _exit(violations.empty() ? 2 : 1);
  }).detach();
  try { runAll(); } catch (Unsup& u) { incomplete.insert("unsupported: " + u.m); }
  try { confirmFolds(); } catch (Unsup&) {}
  gDeadline += 1000;
  std::string j = report();
  if (out.empty()) puts(j.c_str()); else { std::ofstream f(out); f << j << "\n"; }
  return violations.empty() ? (incomplete.empty() ? 0 : 2) : 1;
}
