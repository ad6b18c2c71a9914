// Expression DAG for the symbolic executor: hash-consed bit-vector terms with
// IEEE-754 operations interpreted over bit patterns (sort = width only).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point (operands and results are IEEE bit patterns)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FMA, O_FSQRT, O_FNEG, O_FABS,
  O_FEQ, O_FLT, O_FLE, O_FNAN,
  O_F2F,           // fpext / fptrunc
  O_F2SI, O_F2UI,  // aux = rounding mode
  O_SI2F, O_UI2F,
  O_FRND,          // aux = rounding mode, round to integral
  O_UF,            // uninterpreted function, c = function id, up to 2 args
};
enum RM : uint8_t { RM_RNE, RM_RNA, RM_RTZ, RM_RTP, RM_RTN };
enum UFn { UF_SIN = 1, UF_COS, UF_TAN, UF_ATAN2, UF_EXP, UF_LOG, UF_POW, UF_ASIN, UF_ACOS, UF_ATAN, UF_HYPOT, UF_FMOD, UF_SINH, UF_COSH, UF_LOG2, UF_LOG10, UF_EXP2, UF_CBRT, UF_TANH };

struct Expr {
  Op op;
  uint8_t aux;
  uint16_t w;
  uint32_t id;
  bool hasFP;       // some FP operation occurs below
  Expr* k[3];
  u128 c;
  const std::vector<uint32_t>* vars;  // sorted set of variable ids
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  return (s128)((v ^ m) - m);
}
double bits2d(uint64_t b);
uint64_t d2bits(double d);
float bits2f(uint32_t b);
uint32_t f2bits(float f);

struct VarInfo { std::string name; unsigned w; char kind; /* 'i' int, 'f' float */ bool internal; bool ranged = false; double lo = 0, hi = 0; };
extern std::vector<VarInfo> gVars;
extern bool gRealMode;

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, char kind, bool internal = false);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkCmpRaw(Op op, Expr* a, Expr* b);  // a comparison that is not simplified
extern std::vector<Expr*> gFolds;  // negations of facts decided by interval reasoning
bool fpInterval(Expr* e, double& lo, double& hi);  // finite bounds from declared input ranges
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* e, unsigned w);
Expr* mkSext(Expr* e, unsigned w);
Expr* mkNot(Expr* e);  // w==1
Expr* mkF1(Op op, Expr* a, uint8_t aux = 0);
Expr* mkF2F(Expr* a, unsigned w);
Expr* mkF2I(Op op, Expr* a, unsigned w, uint8_t rm);
Expr* mkI2F(Op op, Expr* a, unsigned w);
Expr* mkFma(Expr* a, Expr* b, Expr* c);
Expr* mkUF(int fn, Expr* a, Expr* b, unsigned w);

inline bool isC(Expr* e) { return e->op == O_CONST; }
// Semantics of one operation on concrete operands (shared by folding, the
// concrete fast path and the model evaluator).
u128 evalOp(Op op, uint8_t aux, unsigned w, unsigned kw, u128 a, u128 b, u128 c, u128 cc);

struct Model {
  std::vector<u128> v;
  u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, u128 x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; }
};
u128 evalExpr(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();
unsigned lowZerosOf(Expr* e);
// variable that stands for an uninterpreted application (created on demand)
uint32_t ufVar(Expr* e);
extern std::vector<Expr*> gUFs;
double ufHost(int fn, double a, double b);
