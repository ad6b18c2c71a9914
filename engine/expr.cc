#include "expr.h"
#include <unordered_set>
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <map>
#include <set>

std::vector<VarInfo> gVars;
bool gRealMode = false;
std::vector<Expr*> gUFs;

double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
float bits2f(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
uint32_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

namespace {
struct H {
  size_t operator()(const Expr* e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w * 0x85EBCA6B + e->aux * 77;
    for (int i = 0; i < 3; i++) { h ^= (uint64_t)(e->k[i] ? e->k[i]->id + 1 : 0) * 0xC2B2AE3D27D4EB4Full; h = (h << 27) | (h >> 37); h *= 0x9E3779B97F4A7C15ull; }
    h ^= (uint64_t)e->c * 0xff51afd7ed558ccdull; h ^= (uint64_t)(e->c >> 64) * 0xc4ceb9fe1a85ec53ull;
    h ^= h >> 31;
    return h;
  }
};
struct E {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->w == b->w && a->aux == b->aux && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};
std::unordered_set<Expr*, H, E> table;
uint32_t nextId = 0;
const std::vector<uint32_t> emptyVars;
std::set<std::vector<uint32_t>> varSets;

const std::vector<uint32_t>* unionVars(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  std::vector<uint32_t> r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return &*varSets.insert(std::move(r)).first;
}

Expr* tabulate(const Expr& t);
Expr* intern(Op op, uint8_t aux, unsigned w, Expr* a, Expr* b, Expr* c, u128 cc) {
  Expr t;
  t.op = op; t.aux = aux; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cc; t.id = 0;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  if (op >= O_FADD && !gRealMode) if (Expr* r = tabulate(t)) return r;
  Expr* e = new Expr(t);
  e->id = nextId++;
  e->hasFP = (op >= O_FADD);
  const std::vector<uint32_t>* vs = &emptyVars;
  for (int i = 0; i < 3; i++) if (e->k[i]) { vs = unionVars(vs, e->k[i]->vars); e->hasFP |= e->k[i]->hasFP; }
  if (op == O_VAR) { vs = &*varSets.insert(std::vector<uint32_t>{(uint32_t)cc}).first; e->hasFP = gVars[(uint32_t)cc].kind == 'f'; }
  e->vars = vs;
  table.insert(e);
  return e;
}
}  // namespace
size_t exprCount() { return table.size(); }

Expr* mkConst(u128 v, unsigned w) { return intern(O_CONST, 0, w, 0, 0, 0, v & maskw(w)); }
Expr* mkVar(const std::string& name, unsigned w, char kind, bool internal) {
  uint32_t id = gVars.size();
  { VarInfo v; v.name = name; v.w = w; v.kind = kind; v.internal = internal; gVars.push_back(v); }
  return intern(O_VAR, 0, w, 0, 0, 0, id);
}

static double hostRound(double x, int rm) {
  switch (rm) {
    case RM_RNE: return std::nearbyint(x);
    case RM_RNA: return std::round(x);
    case RM_RTZ: return std::trunc(x);
    case RM_RTP: return std::ceil(x);
    default: return std::floor(x);
  }
}
double ufHost(int fn, double a, double b) {
  switch (fn) {
    case UF_SIN: return std::sin(a); case UF_COS: return std::cos(a); case UF_TAN: return std::tan(a);
    case UF_ATAN2: return std::atan2(a, b); case UF_EXP: return std::exp(a); case UF_LOG: return std::log(a);
    case UF_POW: return std::pow(a, b); case UF_ASIN: return std::asin(a); case UF_ACOS: return std::acos(a);
    case UF_ATAN: return std::atan(a); case UF_HYPOT: return std::hypot(a, b); case UF_FMOD: return std::fmod(a, b);
    case UF_SINH: return std::sinh(a); case UF_COSH: return std::cosh(a); case UF_LOG2: return std::log2(a);
    case UF_LOG10: return std::log10(a); case UF_EXP2: return std::exp2(a); case UF_CBRT: return std::cbrt(a); case UF_TANH: return std::tanh(a);
  }
  return 0;
}
static float ufHostf(int fn, float a, float b) {
  switch (fn) {
    case UF_SIN: return std::sin(a); case UF_COS: return std::cos(a); case UF_TAN: return std::tan(a);
    case UF_ATAN2: return std::atan2(a, b); case UF_EXP: return std::exp(a); case UF_LOG: return std::log(a);
    case UF_POW: return std::pow(a, b); case UF_ASIN: return std::asin(a); case UF_ACOS: return std::acos(a);
    case UF_ATAN: return std::atan(a); case UF_HYPOT: return std::hypot(a, b); case UF_FMOD: return std::fmod(a, b);
    default: return ufHost(fn, a, b);
  }
}

u128 evalOp(Op op, uint8_t aux, unsigned w, unsigned kw, u128 a, u128 b, u128 c, u128 cc) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b == 0 ? m : a / b;
    case O_UREM: return b == 0 ? a : a % b;
    case O_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case O_SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case O_ASHR: { s128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, kw) < sextw(b, kw);
    case O_SLE: return sextw(a, kw) <= sextw(b, kw);
    case O_ITE: return a ? b : c;
    case O_CONCAT: return 0;  // handled by callers
    case O_EXTRACT: return (a >> (unsigned)cc) & m;
    case O_ZEXT: return a;
    case O_SEXT: return (u128)sextw(a, kw) & m;
    default: break;
  }
  // FP
  bool f32 = (kw == 32);
  if (op == O_SI2F || op == O_UI2F) {
    if (op == O_SI2F) { s128 x = sextw(a, kw); return w == 32 ? (u128)f2bits((float)x) : (u128)d2bits((double)x); }
    return w == 32 ? (u128)f2bits((float)a) : (u128)d2bits((double)a);
  }
  if (op == O_FMA) return w == 32 ? (u128)f2bits(std::fma(bits2f(a), bits2f(b), bits2f(c))) : (u128)d2bits(std::fma(bits2d(a), bits2d(b), bits2d(c)));
  if (f32) {
    float x = bits2f((uint32_t)a), y = bits2f((uint32_t)b);
    switch (op) {
      case O_FADD: return f2bits(x + y);
      case O_FSUB: return f2bits(x - y);
      case O_FMUL: return f2bits(x * y);
      case O_FDIV: return f2bits(x / y);
      case O_FSQRT: return f2bits(std::sqrt(x));
      case O_FNEG: return a ^ 0x80000000u;
      case O_FABS: return a & 0x7fffffffu;
      case O_FEQ: return x == y;
      case O_FLT: return x < y;
      case O_FLE: return x <= y;
      case O_FNAN: return x != x;
      case O_F2F: return w == 64 ? (u128)d2bits((double)x) : a;
      case O_FRND: return f2bits((float)hostRound(x, aux));
      case O_UF: return f2bits(ufHostf((int)cc, x, y));
      default: break;
    }
    a = d2bits((double)x);
  }
  double x = bits2d((uint64_t)a), y = bits2d((uint64_t)b);
  switch (op) {
    case O_FADD: return d2bits(x + y);
    case O_FSUB: return d2bits(x - y);
    case O_FMUL: return d2bits(x * y);
    case O_FDIV: return d2bits(x / y);
    case O_FSQRT: return d2bits(std::sqrt(x));
    case O_FNEG: return a ^ 0x8000000000000000ull;
    case O_FABS: return a & 0x7fffffffffffffffull;
    case O_FEQ: return x == y;
    case O_FLT: return x < y;
    case O_FLE: return x <= y;
    case O_FNAN: return x != x;
    case O_F2F: return w == 32 ? (u128)f2bits((float)x) : a;
    case O_FRND: return d2bits(hostRound(x, aux));
    case O_F2SI: {
      double r = hostRound(x, aux);
      double lim = std::ldexp(1.0, w - 1);
      if (!(r >= -lim && r < lim)) return (u128)1 << (w - 1);
      return (u128)(s128)r & m;
    }
    case O_F2UI: {
      double r = hostRound(x, aux);
      double lim = std::ldexp(1.0, w);
      if (!(r >= 0 && r < lim)) return m;
      return (u128)r & m;
    }
    case O_UF: return d2bits(ufHost((int)cc, x, y));
    default: break;
  }
  fprintf(stderr, "evalOp: bad op %d\n", op);
  abort();
}

static unsigned lowZeros(Expr* e, int depth = 0) {
  if (isC(e)) { if (e->c == 0) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
  if (depth > 6) return 0;
  switch (e->op) {
    case O_MUL: { unsigned n = lowZeros(e->k[0], depth + 1) + lowZeros(e->k[1], depth + 1); return n > e->w ? e->w : n; }
    case O_SHL: if (isC(e->k[1])) { u128 n = e->k[1]->c + lowZeros(e->k[0], depth + 1); return n > e->w ? e->w : (unsigned)n; } return 0;
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(lowZeros(e->k[0], depth + 1), lowZeros(e->k[1], depth + 1));
    case O_AND: return std::max(lowZeros(e->k[0], depth + 1), lowZeros(e->k[1], depth + 1));
    case O_ZEXT: case O_SEXT: { unsigned n = lowZeros(e->k[0], depth + 1); return n >= e->k[0]->w ? e->k[0]->w : n; }
    case O_ITE: return std::min(lowZeros(e->k[1], depth + 1), lowZeros(e->k[2], depth + 1));
    case O_CONCAT: { unsigned n = lowZeros(e->k[1], depth + 1); if (n < e->k[1]->w) return n; return n + lowZeros(e->k[0], depth + 1); }
    default: return 0;
  }
}
// Bits that may be non-zero.
static u128 mayBits(Expr* e, int depth = 0) {
  if (isC(e)) return e->c;
  u128 all = maskw(e->w);
  if (depth > 6) return all;
  switch (e->op) {
    case O_ZEXT: return mayBits(e->k[0], depth + 1);
    case O_CONCAT: return (mayBits(e->k[0], depth + 1) << e->k[1]->w) | mayBits(e->k[1], depth + 1);
    case O_EXTRACT: return (mayBits(e->k[0], depth + 1) >> (unsigned)e->c) & all;
    case O_AND: return mayBits(e->k[0], depth + 1) & mayBits(e->k[1], depth + 1);
    case O_OR: case O_XOR: return mayBits(e->k[0], depth + 1) | mayBits(e->k[1], depth + 1);
    case O_ITE: return mayBits(e->k[1], depth + 1) | mayBits(e->k[2], depth + 1);
    case O_ADD: { u128 a = mayBits(e->k[0], depth + 1), b = mayBits(e->k[1], depth + 1); return a & b ? all : a | b; }
    case O_MUL: if (isC(e->k[1]) && e->k[1]->c && !(e->k[1]->c & (e->k[1]->c - 1))) return (mayBits(e->k[0], depth + 1) << lowZeros(e->k[1])) & all; return all;
    default: return all;
  }
}
unsigned lowZerosOf(Expr* e) { return lowZeros(e); }

Expr* mkZext(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return mkConst(e->c, w);
  if (e->op == O_ZEXT) return mkZext(e->k[0], w);
  return intern(O_ZEXT, 0, w, e, 0, 0, 0);
}
Expr* mkSext(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (w < e->w) return mkExtract(e, 0, w);
  if (isC(e)) return mkConst((u128)sextw(e->c, e->w), w);
  if (e->op == O_SEXT) return mkSext(e->k[0], w);
  if (e->op == O_ZEXT) return mkZext(e->k[0], w);
  return intern(O_SEXT, 0, w, e, 0, 0, 0);
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (isC(e)) return mkConst(e->c >> lo, w);
  switch (e->op) {
    case O_EXTRACT: return mkExtract(e->k[0], lo + (unsigned)e->c, w);
    case O_CONCAT: {
      unsigned lw = e->k[1]->w;
      if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
      return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo));
    }
    case O_ZEXT: {
      unsigned iw = e->k[0]->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(e->k[0], lo, w);
      return mkZext(mkExtract(e->k[0], lo, iw - lo), w);
    }
    case O_SEXT: {
      unsigned iw = e->k[0]->w;
      if (lo + w <= iw) return mkExtract(e->k[0], lo, w);
      if (lo < iw) return mkSext(mkExtract(e->k[0], lo, iw - lo), w);
      return mkSext(mkExtract(e->k[0], iw - 1, 1), w);
    }
    case O_AND: case O_OR: case O_XOR:
      return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return mkBin(e->op, mkExtract(e->k[0], 0, w), mkExtract(e->k[1], 0, w));
      if (e->op == O_MUL && isC(e->k[1])) {
        unsigned n = lowZeros(e->k[1]);
        if (n > 0) {
          unsigned s = std::min(n, lo);
          Expr* m = mkBin(O_MUL, mkExtract(e->k[0], 0, e->w - s), mkConst(e->k[1]->c >> s, e->w - s));
          return mkExtract(m, lo - s, w);
        }
      }
      if (e->op != O_MUL && lowZeros(e->k[0]) >= lo && lowZeros(e->k[1]) >= lo)
        return mkBin(e->op, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
      if (e->op == O_ADD && (mayBits(e->k[0]) & mayBits(e->k[1])) == 0)
        return mkBin(O_OR, mkExtract(e->k[0], lo, w), mkExtract(e->k[1], lo, w));
      break;
    case O_SHL:
      if (isC(e->k[1])) {
        unsigned s = (unsigned)e->k[1]->c;
        if (lo >= s) return mkExtract(e->k[0], lo - s, w);
        if (lo + w <= s) return mkConst(0, w);
      }
      break;
    case O_LSHR:
      if (isC(e->k[1])) {
        unsigned s = (unsigned)e->k[1]->c;
        if (lo + s + w <= e->w) return mkExtract(e->k[0], lo + s, w);
      }
      break;
    case O_ASHR:
      if (isC(e->k[1])) {
        unsigned s = (unsigned)e->k[1]->c;
        if (lo + s + w <= e->w) return mkExtract(e->k[0], lo + s, w);
      }
      break;
    case O_ITE:
      if (isC(e->k[1]) || isC(e->k[2]) || e->k[1]->op == O_ITE || e->k[2]->op == O_ITE || e->k[1]->op==O_ZEXT || e->k[2]->op==O_ZEXT || e->k[1]->op==O_CONCAT || e->k[2]->op==O_CONCAT)
        return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
      break;
    default: break;
  }
  return intern(O_EXTRACT, 0, w, e, 0, 0, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return mkExtract(lo->k[0], (unsigned)lo->c, w);
  // lo may itself be a concat whose high part continues hi
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  // extract(x, n..) : x[0..n)  handled when lo = truncated var
  if (hi->op == O_EXTRACT && hi->k[0]->w >= w && hi->c == lo->w && mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, w);
  return intern(O_CONCAT, 0, w, hi, lo, 0, 0);
}
Expr* mkNot(Expr* e) { return mkBin(O_XOR, e, mkConst(1, 1)); }

static bool isCmp(Op o) { return o == O_EQ || (o >= O_ULT && o <= O_SLE); }

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isC(c->k[1]) && c->w == 1) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->op == O_ITE && a->k[2] == b) return mkIte(mkBin(O_AND, c, a->k[0]), a->k[1], b);
  if (b->op == O_ITE && b->k[1] == a) return mkIte(mkBin(O_OR, c, b->k[0]), a, b->k[2]);
  return intern(O_ITE, 0, a->w, c, a, b, 0);
}

std::vector<Expr*> gFolds;
static void foldNote(Expr* neg) { static std::unordered_set<Expr*> seen; if (seen.insert(neg).second) gFolds.push_back(neg); }
Expr* mkCmpRaw(Op op, Expr* a, Expr* b) { return intern(op, 0, 1, a, b, 0, 0); }
// Interval of an integer expression read as signed number.
static bool intInterval(Expr* e, double& lo, double& hi, int depth = 0) {
  if (isC(e)) { lo = hi = (double)sextw(e->c, e->w); return std::fabs(lo) < 4e15; }
  if (depth > 12 || e->w > 64) return false;
  double a, b, c, d;
  double lim = std::ldexp(1.0, e->w > 52 ? 52 : e->w - 1) - 1;
  switch (e->op) {
    case O_VAR: { auto& v = gVars[(uint32_t)e->c]; if (!v.ranged || v.kind != 'i') return false; lo = v.lo; hi = v.hi; return true; }
    case O_SEXT: return intInterval(e->k[0], lo, hi, depth + 1);
    case O_ZEXT: if (e->k[0]->w == 1) { lo = 0; hi = 1; return true; } return intInterval(e->k[0], lo, hi, depth + 1) && lo >= 0;
    case O_ADD: if (!intInterval(e->k[0], a, b, depth + 1) || !intInterval(e->k[1], c, d, depth + 1)) return false; lo = a + c; hi = b + d; break;
    case O_SUB: if (!intInterval(e->k[0], a, b, depth + 1) || !intInterval(e->k[1], c, d, depth + 1)) return false; lo = a - d; hi = b - c; break;
    case O_MUL: if (!isC(e->k[1]) || !intInterval(e->k[0], a, b, depth + 1)) return false; c = (double)sextw(e->k[1]->c, e->w); if (std::fabs(c) > 1e15) return false; lo = std::min(a * c, b * c); hi = std::max(a * c, b * c); break;
    case O_ITE: if (!intInterval(e->k[1], a, b, depth + 1) || !intInterval(e->k[2], c, d, depth + 1)) return false; lo = std::min(a, c); hi = std::max(b, d); break;
    default: return false;
  }
  return lo >= -lim && hi <= lim;
}
static bool fpIv(Expr* e, double& lo, double& hi);
bool fpInterval(Expr* e, double& lo, double& hi) {
  if (isC(e)) {
    double d = e->w == 32 ? (double)bits2f((uint32_t)e->c) : e->w == 64 ? bits2d((uint64_t)e->c) : NAN;
    lo = hi = d; return std::isfinite(d);
  }
  struct R { bool ok; double lo, hi; };
  static std::unordered_map<Expr*, R> memo;
  auto it = memo.find(e);
  if (it == memo.end()) {
    R r; r.ok = fpIv(e, r.lo, r.hi) && r.lo <= r.hi && std::fabs(r.lo) < (e->w == 32 ? 1e30 : 1e290) && std::fabs(r.hi) < (e->w == 32 ? 1e30 : 1e290);
    it = memo.emplace(e, r).first;
  }
  lo = it->second.lo; hi = it->second.hi;
  return it->second.ok;
}
static bool fpIv(Expr* e, double& lo, double& hi) {
  if (e->w != 32 && e->w != 64) return false;
  bool f = e->w == 32;
  auto out = [&]() {
    lo = std::nextafter(lo, -INFINITY); hi = std::nextafter(hi, INFINITY);
    if (f) { lo = std::nextafterf((float)lo, -INFINITY); hi = std::nextafterf((float)hi, INFINITY); }
    return true;
  };
  double a, b, c, d;
  switch (e->op) {
    case O_VAR: { auto& v = gVars[(uint32_t)e->c]; if (!v.ranged || v.kind != 'f') return false; lo = v.lo; hi = v.hi; return true; }
    case O_FNEG: if (!fpInterval(e->k[0], a, b)) return false; lo = -b; hi = -a; return true;
    case O_FABS: if (!fpInterval(e->k[0], a, b)) return false; if (a >= 0) { lo = a; hi = b; } else if (b <= 0) { lo = -b; hi = -a; } else { lo = 0; hi = std::max(-a, b); } return true;
    case O_FADD: case O_FSUB:
      if (!fpInterval(e->k[0], a, b) || !fpInterval(e->k[1], c, d)) return false;
      if (e->op == O_FADD) { lo = a + c; hi = b + d; } else { lo = a - d; hi = b - c; }
      return out();
    case O_FMUL: case O_FDIV: {
      if (!fpInterval(e->k[0], a, b) || !fpInterval(e->k[1], c, d)) return false;
      if (e->op == O_FDIV && c <= 0 && d >= 0) return false;
      double q[4];
      if (e->op == O_FMUL) { q[0] = a * c; q[1] = a * d; q[2] = b * c; q[3] = b * d; } else { q[0] = a / c; q[1] = a / d; q[2] = b / c; q[3] = b / d; }
      lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4);
      if (e->op == O_FMUL && e->k[0] == e->k[1] && lo < 0) { lo = 0; double h = hi; out(); lo = 0; (void)h; return true; }
      return out();
    }
    case O_FSQRT: if (!fpInterval(e->k[0], a, b) || a < 0) return false; lo = std::sqrt(a); hi = std::sqrt(b); out(); if (lo < 0) lo = 0; return true;
    case O_F2F: if (!fpInterval(e->k[0], lo, hi)) return false; return e->w < e->k[0]->w ? out() : true;
    case O_SI2F: if (!intInterval(e->k[0], lo, hi)) return false; if (f ? std::max(std::fabs(lo), std::fabs(hi)) < 16777216. : true) return true; return out();
    case O_ITE: if (!fpInterval(e->k[1], a, b) || !fpInterval(e->k[2], c, d)) return false; lo = std::min(a, c); hi = std::max(b, d); return true;
    case O_FRND: if (!fpInterval(e->k[0], a, b)) return false; lo = std::floor(a); hi = std::ceil(b); return true;
    default: return false;
  }
}
Expr* mkBin(Op op, Expr* a, Expr* b) {
  unsigned w = isCmp(op) || op == O_FEQ || op == O_FLT || op == O_FLE ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(evalOp(op, 0, w, a->w, a->c, b->c, 0, 0), w);
  // commutative: constant to the right, otherwise order by id
  switch (op) {
    case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
    case O_FADD: case O_FMUL: case O_FEQ:
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
      break;
    default: break;
  }
  u128 m = maskw(a->w);
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(O_ADD, a->k[1], b), mkBin(O_ADD, a->k[2], b));
      }
      if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
      if (a->op == O_SUB && a->k[1] == b) return a->k[0];
      if (b->op == O_SUB && b->k[1] == a) return b->k[0];
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->c, w));
      if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkConst(0 - b->k[1]->c, w));
      if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
      if (b->op == O_ADD) { if (b->k[0] == a) return mkBin(O_SUB, mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkBin(O_SUB, mkConst(0, w), b->k[0]); }
      break;
    case O_MUL:
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (a->op == O_MUL && isC(a->k[1])) return mkBin(O_MUL, a->k[0], mkConst(a->k[1]->c * b->c, w));
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_MUL, a->k[0], b), mkConst(a->k[1]->c * b->c, w));
      }
      break;
    case O_UDIV: if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && !(b->c & (b->c - 1))) { unsigned n = lowZeros(b); return mkBin(O_LSHR, a, mkConst(n, w)); }
      break;
    case O_UREM: if (isC(b) && b->c == 1) return mkConst(0, w);
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w));
      break;
    case O_SDIV: if (isC(b) && b->c == 1) return a; break;
    case O_SREM: if (isC(b) && b->c == 1) return mkConst(0, w); break;
    case O_SHL:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkBin(O_MUL, a, mkConst((u128)1 << (unsigned)b->c, w));
      }
      break;
    case O_LSHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      }
      break;
    case O_ASHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        // low mask
        if (((b->c + 1) & b->c) == 0) { unsigned n = 0; while ((b->c >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
        if (a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
        // general mask: contiguous ones -> shift of an extract
        { unsigned n = lowZeros(b); u128 t = b->c >> n; if (n > 0 && ((t + 1) & t) == 0) { unsigned k = 0; while ((t >> k) & 1) k++; Expr* mid = mkExtract(a, n, k); Expr* r = mkConcat(mid, mkConst(0, n)); return mkZext(r, w); } }
      }
      if (w == 1 && ((a->op == O_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == O_XOR && isC(b->k[1]) && b->k[0] == a))) return mkConst(0, 1);
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
      if (w == 1 && ((a->op == O_XOR && isC(a->k[1]) && a->k[0] == b) || (b->op == O_XOR && isC(b->k[1]) && b->k[0] == a))) return mkConst(1, 1);
      // disjoint concat-like:  zext(lo) | (hi << n)
      if (a->op == O_ZEXT && b->op == O_CONCAT && isC(b->k[1]) && b->k[1]->c == 0 && b->k[1]->w >= a->k[0]->w) return mkConcat(b->k[0], mkZext(a->k[0], b->k[1]->w));
      if (b->op == O_ZEXT && a->op == O_CONCAT && isC(a->k[1]) && a->k[1]->c == 0 && a->k[1]->w >= b->k[0]->w) return mkConcat(a->k[0], mkZext(b->k[0], a->k[1]->w));
      { unsigned za = lowZeros(a), zb = lowZeros(b);
        if (za > 0 && b->op == O_ZEXT && b->k[0]->w <= za && za < w) return mkConcat(mkExtract(a, za, w - za), mkZext(b->k[0], za));
        if (zb > 0 && a->op == O_ZEXT && a->k[0]->w <= zb && zb < w) return mkConcat(mkExtract(b, zb, w - zb), mkZext(a->k[0], zb)); }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
        if (w == 1) {
          if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
          if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
          if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
          if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
        }
      }
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (a->w == 1) return b->c ? a : mkNot(a);
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
        if (a->op == O_ZEXT) { if (b->c >> a->k[0]->w) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c, a->k[0]->w)); }
        if (a->op == O_SEXT) { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sextw(t, a->k[0]->w) & m) != b->c) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(t, a->k[0]->w)); }
        if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(O_EQ, a->k[1], b), mkBin(O_EQ, a->k[2], b));
        if (a->op == O_CONCAT) return mkBin(O_AND, mkBin(O_EQ, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), mkBin(O_EQ, a->k[1], mkConst(b->c, a->k[1]->w)));
        if (a->op == O_MUL && isC(a->k[1])) { unsigned n = lowZeros(a->k[1]); if (n > 0) { if (b->c & maskw(n)) return mkConst(0, 1); if ((a->k[1]->c >> n) == 1) return mkBin(O_EQ, mkExtract(a->k[0], 0, a->w - n), mkConst(b->c >> n, a->w - n)); } }
        if (a->op == O_SUB) { if (b->c == 0) return mkBin(O_EQ, a->k[0], a->k[1]); if (isC(a->k[0])) return mkBin(O_EQ, a->k[1], mkConst(a->k[0]->c - b->c, a->w)); }
      } else {
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
        if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
      }
      if (a->w == 1) return mkNot(mkBin(O_XOR, a, b));
      break;
    case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->c == 0) return mkConst(0, 1);
      if (isC(b) && b->c == 1) return mkBin(O_EQ, a, mkConst(0, a->w));
      if (isC(a) && a->c == m) return mkConst(0, 1);
      if (a->op == O_ZEXT && isC(b)) { if (b->c >> a->k[0]->w) return mkConst(1, 1); return mkBin(O_ULT, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (b->op == O_ZEXT && isC(a)) { if (a->c >> b->k[0]->w) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->c, b->k[0]->w), b->k[0]); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULT, a->k[0], b->k[0]);
      break;
    case O_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->c == 0) return mkConst(1, 1);
      if (isC(b) && b->c == m) return mkConst(1, 1);
      if (isC(b) && b->c == 0) return mkBin(O_EQ, a, b);
      if (a->op == O_ZEXT && isC(b)) { if (b->c >> a->k[0]->w) return mkConst(1, 1); return mkBin(O_ULE, a->k[0], mkConst(b->c, a->k[0]->w)); }
      if (b->op == O_ZEXT && isC(a)) { if (a->c >> b->k[0]->w) return mkConst(0, 1); return mkBin(O_ULE, mkConst(a->c, b->k[0]->w), b->k[0]); }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULE, a->k[0], b->k[0]);
      break;
    case O_SLT:
      if (a == b) return mkConst(0, 1);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLT, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && isC(b)) { if (sextw(b->c, a->w) <= 0) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (b->op == O_ZEXT && isC(a)) { if (sextw(a->c, a->w) < 0) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b);
      if (a->op == O_SEXT && isC(b)) { s128 v = sextw(b->c, a->w); unsigned iw = a->k[0]->w; s128 lim = (s128)1 << (iw - 1); if (v >= lim) return mkConst(1, 1); if (v <= -lim) return mkConst(0, 1); return mkBin(O_SLT, a->k[0], mkConst((u128)v, iw)); }
      if (b->op == O_SEXT && isC(a)) { s128 v = sextw(a->c, a->w); unsigned iw = b->k[0]->w; s128 lim = (s128)1 << (iw - 1); if (v >= lim - 1) return mkConst(0, 1); if (v < -lim) return mkConst(1, 1); return mkBin(O_SLT, mkConst((u128)v, iw), b->k[0]); }
      break;
    case O_SLE:
      if (a == b) return mkConst(1, 1);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLE, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && isC(b)) { if (sextw(b->c, a->w) < 0) return mkConst(0, 1); return mkBin(O_ULE, a, b); }
      if (b->op == O_ZEXT && isC(a)) { if (sextw(a->c, a->w) <= 0) return mkConst(1, 1); return mkBin(O_ULE, a, b); }
      if (a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULE, a, b);
      if (a->op == O_SEXT && isC(b)) { s128 v = sextw(b->c, a->w); unsigned iw = a->k[0]->w; s128 lim = (s128)1 << (iw - 1); if (v >= lim - 1) return mkConst(1, 1); if (v < -lim) return mkConst(0, 1); return mkBin(O_SLE, a->k[0], mkConst((u128)v, iw)); }
      if (b->op == O_SEXT && isC(a)) { s128 v = sextw(a->c, a->w); unsigned iw = b->k[0]->w; s128 lim = (s128)1 << (iw - 1); if (v >= lim) return mkConst(0, 1); if (v <= -lim) return mkConst(1, 1); return mkBin(O_SLE, mkConst((u128)v, iw), b->k[0]); }
      break;
    case O_FEQ: case O_FLT: case O_FLE:
      { double al, ah, bl, bh;
        if (a != b && fpInterval(a, al, ah) && fpInterval(b, bl, bh)) {
          int v = -1;
          if (ah < bl) v = op != O_FEQ;
          else if (al > bh) v = 0;
          else if (op == O_FLE && ah <= bl) v = 1;
          else if (op == O_FLT && al >= bh) v = 0;
          if (v >= 0) { Expr* raw = mkCmpRaw(op, a, b); foldNote(v ? mkNot(raw) : raw); return mkConst(v, 1); }
        } }
      if (isC(b) || isC(a)) {
        Expr* s = isC(b) ? a : b; Expr* k = isC(b) ? b : a;
        if (s->op == O_ITE && (isC(s->k[1]) || isC(s->k[2]))) {
          Expr* t1 = isC(b) ? mkBin(op, s->k[1], k) : mkBin(op, k, s->k[1]);
          Expr* t2 = isC(b) ? mkBin(op, s->k[2], k) : mkBin(op, k, s->k[2]);
          return mkIte(s->k[0], t1, t2);
        }
      }
      if (a == b && op == O_FLT) return mkConst(0, 1);
      if (a == b && gRealMode) return mkConst(1, 1);
      if (a == b) return mkNot(mkF1(O_FNAN, a));
      break;
    case O_FMUL:  // x * 1.0 == x (up to NaN payload)
      if (isC(b) && b->c == (a->w == 32 ? (u128)0x3f800000u : (u128)0x3ff0000000000000ull)) return a;
      if (gRealMode && isC(b) && b->c == 0) return b;
      break;
    case O_FDIV:
      if (isC(b) && b->c == (a->w == 32 ? (u128)0x3f800000u : (u128)0x3ff0000000000000ull)) return a;
      break;
    case O_FSUB:
      if (isC(b) && b->c == 0) return a;  // x - (+0) == x
      if (gRealMode && a == b) return mkConst(0, w);
      break;
    case O_FADD:
      if (gRealMode && isC(b) && (b->c << 1 & m) == 0) return a;
      if (isC(b) && b->c == ((u128)1 << (w - 1))) return a;  // x + (-0) == x
      break;
    default: break;
  }
  return intern(op, 0, w, a, b, 0, 0);
}

Expr* mkF1(Op op, Expr* a, uint8_t aux) {
  unsigned w = op == O_FNAN ? 1 : a->w;
  if (isC(a)) return mkConst(evalOp(op, aux, w, a->w, a->c, 0, 0, 0), w);
  if (op == O_FNEG && a->op == O_FNEG) return a->k[0];
  if (op == O_FABS && (a->op == O_FABS)) return a;
  if (op == O_FABS && (a->op == O_FNEG)) return mkF1(O_FABS, a->k[0]);
  if (op == O_FNAN) {
    if (gRealMode) return mkConst(0, 1);
    if (a->op == O_SI2F || a->op == O_UI2F) return mkConst(0, 1);
    { double l, h; if (fpInterval(a, l, h)) return mkConst(0, 1); }
    if (a->op == O_ITE) return mkIte(a->k[0], mkF1(O_FNAN, a->k[1]), mkF1(O_FNAN, a->k[2]));
    if (a->op == O_FNEG || a->op == O_FABS || a->op == O_F2F || a->op == O_FRND) return mkF1(O_FNAN, a->k[0]);
  }
  if (op == O_FRND && a->op == O_FRND) return a;
  return intern(op, aux, w, a, 0, 0, 0);
}
Expr* mkF2F(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(evalOp(O_F2F, 0, w, a->w, a->c, 0, 0, 0), w);
  if (a->op == O_F2F && w == 32 && a->k[0]->w == 32) return a->k[0];  // trunc(ext(x))
  return intern(O_F2F, 0, w, a, 0, 0, 0);
}
Expr* mkF2I(Op op, Expr* a, unsigned w, uint8_t rm) {
  if (isC(a)) return mkConst(evalOp(op, rm, w, a->w, a->c, 0, 0, 0), w);
  if (op == O_F2SI) {
    double l, h;
    if (fpInterval(a, l, h) && std::fabs(l) < 9e15 && std::fabs(h) < 9e15) {
      // rounding to an integer is monotone
      u128 x = evalOp(op, rm, w, 64, d2bits(l), 0, 0, 0), y = evalOp(op, rm, w, 64, d2bits(h), 0, 0, 0);
      if (x == y && std::fabs(l) < std::ldexp(1.0, (int)w - 2) && std::fabs(h) < std::ldexp(1.0, (int)w - 2)) { foldNote(mkNot(mkCmpRaw(O_EQ, intern(op, rm, w, a, 0, 0, 0), mkConst(x, w)))); return mkConst(x, w); }
    }
  }
  // exact int -> fp -> int
  if ((a->op == O_SI2F || a->op == O_UI2F) && a->k[0]->w < (a->w == 32 ? 25 : 54) && a->k[0]->w < w)
    return a->op == O_SI2F ? (op == O_F2SI ? mkSext(a->k[0], w) : intern(op, rm, w, a, 0, 0, 0)) : mkZext(a->k[0], w);
  return intern(op, rm, w, a, 0, 0, 0);
}
Expr* mkI2F(Op op, Expr* a, unsigned w) {
  if (isC(a)) return mkConst(evalOp(op, 0, w, a->w, a->c, 0, 0, 0), w);
  if (a->op == O_SEXT && op == O_SI2F) return mkI2F(O_SI2F, a->k[0], w);
  if (a->op == O_ZEXT) return mkI2F(O_UI2F, a->k[0], w);
  return intern(op, 0, w, a, 0, 0, 0);
}
Expr* mkFma(Expr* a, Expr* b, Expr* c) {
  if (isC(a) && isC(b) && isC(c)) return mkConst(evalOp(O_FMA, 0, a->w, a->w, a->c, b->c, c->c, 0), a->w);
  return intern(O_FMA, 0, a->w, a, b, c, 0);
}
static std::unordered_map<Expr*, uint32_t> ufVars;
Expr* mkUF(int fn, Expr* a, Expr* b, unsigned w) {
  if (isC(a) && (!b || isC(b))) return mkConst(evalOp(O_UF, 0, w, a->w, a->c, b ? b->c : 0, 0, fn), w);
  size_t before = table.size();
  Expr* e = intern(O_UF, 0, w, a, b, 0, fn);
  if (e->op == O_UF && table.size() != before) {
    // give the application a solver variable of its own
    char buf[64]; snprintf(buf, sizeof buf, "uf%d!%u", fn, e->id);
    uint32_t id = gVars.size();
    gVars.push_back({buf, w, 'f', true});
    ufVars[e] = id;
    e->vars = unionVars(e->vars, &*varSets.insert(std::vector<uint32_t>{id}).first);
    gUFs.push_back(e);
  }
  return e;
}
uint32_t ufVar(Expr* e) { return ufVars.at(e); }

// Iterative evaluation with memoisation through a per-call hash map.
namespace {
struct EvalCtx {
  const Model& m;
  std::unordered_map<Expr*, u128> memo;
  u128 ev(Expr* e) {
    if (e->op == O_CONST) return e->c;
    if (e->op == O_VAR) return m.get((uint32_t)e->c);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 r;
    switch (e->op) {
      case O_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
      case O_CONCAT: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
      case O_UF: r = m.get(ufVar(e)); break;
      case O_AND: if (e->w == 1) { r = ev(e->k[0]) ? ev(e->k[1]) : 0; break; } r = ev(e->k[0]) & ev(e->k[1]); break;
      case O_OR: if (e->w == 1) { r = ev(e->k[0]) ? 1 : ev(e->k[1]); break; } r = ev(e->k[0]) | ev(e->k[1]); break;
      default: {
        u128 a = e->k[0] ? ev(e->k[0]) : 0, b = e->k[1] ? ev(e->k[1]) : 0, c = e->k[2] ? ev(e->k[2]) : 0;
        r = evalOp(e->op, e->aux, e->w, e->k[0]->w, a, b, c, e->c);
      }
    }
    memo[e] = r;
    return r;
  }
};
}  // namespace
u128 evalExpr(Expr* e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  EvalCtx c{m, {}};
  return c.ev(e);
}

// A floating-point operation whose operands depend only on a few integer inputs
// of small declared range is replaced by the table of its values (a decision
// tree over these inputs, computed with the exact evaluator).
namespace {
unsigned tabCap() { static unsigned c = getenv("SYMX_TAB") ? atoi(getenv("SYMX_TAB")) : 768; return c; }
Expr* tabRec(const Expr& t, const std::vector<uint32_t>& vars, size_t i, Model& m) {
  if (i == vars.size()) {
    u128 v[3] = {0, 0, 0};
    for (int j = 0; j < 3; j++) if (t.k[j]) v[j] = evalExpr(t.k[j], m);
    return mkConst(evalOp(t.op, t.aux, t.w, t.k[0]->w, v[0], v[1], v[2], t.c), t.w);
  }
  const VarInfo& vi = gVars[vars[i]];
  Expr* x = intern(O_VAR, 0, vi.w, 0, 0, 0, vars[i]);
  Expr* r = nullptr;
  int64_t lo = vi.w == 1 ? 0 : (int64_t)vi.lo, hi = vi.w == 1 ? 1 : (int64_t)vi.hi;
  for (int64_t v = hi; v >= lo; --v) {
    m.set(vars[i], (u128)(s128)v & maskw(vi.w));
    Expr* c = tabRec(t, vars, i + 1, m);
    r = r ? mkIte(mkBin(O_EQ, x, mkConst((u128)(s128)v, vi.w)), c, r) : c;
  }
  return r;
}
Expr* tabulate(const Expr& t) {
  const std::vector<uint32_t>* vs = &emptyVars;
  for (int i = 0; i < 3; i++) if (t.k[i]) vs = unionVars(vs, t.k[i]->vars);
  if (vs->empty()) return nullptr;
  double n = 1;
  for (uint32_t v : *vs) {
    const VarInfo& vi = gVars[v];
    if (vi.kind != 'i' || vi.internal) return nullptr;
    if (vi.w == 1) n *= 2;
    else if (vi.ranged && vi.hi >= vi.lo) n *= vi.hi - vi.lo + 1;
    else return nullptr;
    if (n > tabCap()) return nullptr;
  }
  static std::unordered_map<Expr*, Expr*, H, E> cache;
  Expr key = t;
  auto it = cache.find(&key);
  if (it != cache.end()) return it->second;
  Model m;
  Expr* r = tabRec(t, *vs, 0, m);
  cache[new Expr(t)] = r;
  return r;
}
}  // namespace

std::string exprStr(Expr* e, int depth) {
  static const char* names[] = {"c", "v", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "&", "|", "^", "=", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "fma", "fsqrt", "fneg", "fabs", "f=", "f<", "f<=", "fnan", "f2f", "f2si", "f2ui", "si2f", "ui2f", "frnd", "uf"};
  char buf[80];
  if (e->op == O_CONST) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == O_VAR) return gVars[(uint32_t)e->c].name;
  if (depth == 0) return "...";
  std::string s = "(";
  s += names[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", (int)e->c, e->w); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
