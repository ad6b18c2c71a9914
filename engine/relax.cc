// Sound integer/real relaxation of a query.  Every floating-point operation whose
// operands are provably finite becomes a real operation followed by a rounding
// relation (|r - t| <= u|t| + tiny, rounding is monotone and sign preserving, and
// exact when the result is provably representable); bit-vector operations become
// integer operations, exact when interval analysis excludes wrap-around; anything
// else becomes a fresh unconstrained value of its type.  All models of the original
// query are models of the relaxation, so UNSAT carries over.  A SAT answer is only
// used as a candidate, which the exact evaluator has to confirm.
#include "solver.h"
#include <z3.h>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <map>
#include <set>

namespace {
struct Unsupported {};
struct FV { bool ok; double lo, hi; int g; Z3_ast r; };         // finite real value, multiple of 2^g
struct IV { s128 lo, hi; Z3_ast s; };                           // signed value
struct Rnd { Z3_ast t, r; int p; };
const int NOG = -100000;

struct Relax {
  Z3_context C;
  Z3_sort sI, sR, sB;
  std::vector<Z3_ast> side, sideRel;
  std::unordered_map<Expr*, FV> cf;
  std::unordered_map<Expr*, IV> ci;
  std::unordered_map<Expr*, Z3_ast> cb;
  std::map<uint32_t, std::pair<double, double>> fb;
  std::map<uint32_t, std::pair<s128, s128>> ib;
  std::map<uint32_t, Z3_ast> vF, vI;
  std::vector<Rnd> rnds;
  int fresh = 0;
  bool approx = false;

  Z3_ast mk(Z3_sort s) { std::string n = "k" + std::to_string(fresh++); return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s); }
  std::string i2s(s128 v) { bool neg = v < 0; u128 u = neg ? (u128)(-(v + 1)) + 1 : (u128)v; char b[64]; char* p = b + 63; *p = 0; if (!u) *--p = '0'; while (u) { *--p = '0' + (int)(u % 10); u /= 10; } if (neg) *--p = '-'; return p; }
  Z3_ast num(s128 v, Z3_sort s) { return Z3_mk_numeral(C, i2s(v).c_str(), s); }
  Z3_ast real(double d) {
    if (d == 0) return Z3_mk_numeral(C, "0", sR);
    int ex; double m = std::frexp(d, &ex);
    long long mi = (long long)std::ldexp(m, 53); ex -= 53;
    while (!(mi & 1)) { mi >>= 1; ex++; }
    auto pow2 = [](int n) { std::vector<int> dg{1}; for (int i = 0; i < n; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); } std::string s; for (auto i = dg.rbegin(); i != dg.rend(); ++i) s += '0' + *i; return s; };
    if (ex >= 0) return mul(Z3_mk_numeral(C, std::to_string(mi).c_str(), sR), Z3_mk_numeral(C, pow2(ex).c_str(), sR));
    return Z3_mk_numeral(C, (std::to_string(mi) + "/" + pow2(-ex)).c_str(), sR);
  }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return Z3_mk_le(C, a, b); }
  Z3_ast land(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
  Z3_ast lor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
  Z3_ast imp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(C, a, b); }
  Z3_ast toReal(Z3_ast i) { return Z3_mk_int2real(C, i); }

  // ---- bounds from top-level conjuncts
  void note(Expr* e, bool pos) {
    if (e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == 1) { note(e->k[0], !pos); return; }
    if (pos && e->op == O_AND) { note(e->k[0], true); note(e->k[1], true); return; }
    if (!pos && e->op == O_OR) { note(e->k[0], false); note(e->k[1], false); return; }
    Expr *a = e->k[0], *b = e->k[1];
    if (e->op == O_FLE || e->op == O_FLT) {
      if (!pos) return;  // NaN makes the negation uninformative
      if (isC(a) && b->op == O_VAR) upF(b, val(a), true);
      if (isC(b) && a->op == O_VAR) upF(a, val(b), false);
      // widened float -> double compare
      if (isC(a) && b->op == O_F2F && b->k[0]->op == O_VAR && b->w == 64) upF(b->k[0], val(a), true);
      if (isC(b) && a->op == O_F2F && a->k[0]->op == O_VAR && a->w == 64) upF(a->k[0], val(b), false);
    } else if (e->op == O_SLE || e->op == O_SLT || e->op == O_ULE || e->op == O_ULT) {
      bool un = e->op == O_ULE || e->op == O_ULT, strict = e->op == O_SLT || e->op == O_ULT;
      if (!pos) { std::swap(a, b); strict = !strict; }
      // a <= b (or <)
      if (isC(b) && a->op == O_VAR) { s128 c = un ? (s128)b->c : sextw(b->c, b->w); upI(a, c - strict, false, un); }
      if (isC(a) && b->op == O_VAR) { s128 c = un ? (s128)a->c : sextw(a->c, a->w); upI(b, c + strict, true, un); }
    } else if (e->op == O_EQ && pos) {
      if (isC(b)) std::swap(a, b);
      if (isC(a) && b->op == O_VAR) { s128 c = sextw(a->c, a->w); upI(b, c, true, false); upI(b, c, false, false); }
    }
  }
  double val(Expr* c) { return c->w == 32 ? (double)bits2f((uint32_t)c->c) : bits2d((uint64_t)c->c); }
  void upF(Expr* v, double d, bool low) {
    auto it = fb.find((uint32_t)v->c);
    if (it == fb.end()) it = fb.insert({(uint32_t)v->c, {-INFINITY, INFINITY}}).first;
    if (low) it->second.first = std::max(it->second.first, d); else it->second.second = std::min(it->second.second, d);
  }
  void upI(Expr* v, s128 d, bool low, bool un) {
    unsigned w = v->w;
    s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
    auto it = ib.find((uint32_t)v->c);
    if (it == ib.end()) it = ib.insert({(uint32_t)v->c, {mn, mx}}).first;
    if (un) { if (!low && d >= 0 && d <= mx) { it->second.first = std::max(it->second.first, (s128)0); it->second.second = std::min(it->second.second, d); } else if (low && it->second.first >= 0) it->second.first = std::max(it->second.first, d); return; }
    if (low) it->second.first = std::max(it->second.first, d); else it->second.second = std::min(it->second.second, d);
  }

  // ---- floating point
  FV bad() { return {false, 0, 0, NOG, nullptr}; }
  static double dn(double x) { return std::nextafter(x, -INFINITY); }
  static double up(double x) { return std::nextafter(x, INFINITY); }
  FV round(Z3_ast t, double lo, double hi, int g, unsigned w, bool sum = false) {
    int p = w == 32 ? 24 : 53;
    double mx = w == 32 ? FLT_MAX : DBL_MAX / 4;
    if (!(lo >= -mx && hi <= mx)) return bad();
    double M = std::max(std::fabs(lo), std::fabs(hi));
    if (g > NOG && g + p < 1000 && M <= std::ldexp(1.0, g + p) && g >= (w == 32 ? -149 : -1074)) return {true, lo, hi, g, t};
    approx = true;
    Z3_ast r = mk(sR);
    double u = std::ldexp(1.0, -p);
    double tiny = w == 32 ? std::ldexp(1.0, -150) : std::ldexp(1.0, -300);
    if (sum) tiny = 0;  // sums are exact in the subnormal range
    Z3_ast z = real(0);
    Z3_ast d = sub(r, t), dneg = sub(t, r);
    // absolute bound (constant) and relative bound
    double E = M * u * (1 + 1e-10) + tiny;
    side.push_back(le(d, real(E))); side.push_back(le(dneg, real(E)));
    if (lo >= 0 || hi <= 0) {
      Z3_ast rel = add(mul(real(lo >= 0 ? u : -u), t), real(tiny));
      sideRel.push_back(le(d, rel)); sideRel.push_back(le(dneg, rel));
      sideRel.push_back(lo >= 0 ? Z3_mk_ge(C, r, z) : le(r, z));
    } else {
      Z3_ast rel = add(mul(real(u), Z3_mk_ite(C, Z3_mk_ge(C, t, z), t, sub(z, t))), real(tiny));
      sideRel.push_back(le(d, rel)); sideRel.push_back(le(dneg, rel));
      sideRel.push_back(imp(Z3_mk_ge(C, t, z), Z3_mk_ge(C, r, z)));
      sideRel.push_back(imp(le(t, z), le(r, z)));
    }
    rnds.push_back({t, r, p});
    double slo, shi;
    if (w == 32) { slo = (double)std::nextafterf((float)lo, -INFINITY); shi = (double)std::nextafterf((float)hi, INFINITY); if (lo >= 0 && slo < 0) slo = 0; if (hi <= 0 && shi > 0) shi = 0; }
    else { slo = lo >= 0 ? std::max(0., dn(lo)) : dn(lo); shi = hi <= 0 ? std::min(0., up(hi)) : up(hi); }
    side.push_back(le(real(slo), r)); side.push_back(le(r, real(shi)));
    return {true, slo, shi, NOG, r};
  }
  FV F(Expr* e) {
    auto it = cf.find(e);
    if (it != cf.end()) return it->second;
    FV r = F1(e);
    return cf[e] = r;
  }
  FV F1(Expr* e) {
    FV r = F2(e);
    // an integral operand of small range against a constant: exact table
    if (r.ok && r.g == NOG && (e->op == O_FDIV || e->op == O_FMUL || e->op == O_FADD || e->op == O_FSUB)) {
      for (int i = 0; i < 2; i++) if (isC(e->k[1 - i])) {
        FV a = F(e->k[i]);
        if (a.ok && a.g >= 0 && a.hi - a.lo <= 64 && std::fabs(a.lo) < 1e6) for (double v = a.lo; v <= a.hi; v += 1) {
          u128 b = e->w == 32 ? (u128)f2bits((float)v) : (u128)d2bits(v);
          u128 o = i == 0 ? evalOp(e->op, 0, e->w, e->w, b, e->k[1]->c, 0, 0) : evalOp(e->op, 0, e->w, e->w, e->k[0]->c, b, 0, 0);
          double x = e->w == 32 ? (double)bits2f((uint32_t)o) : bits2d((uint64_t)o);
          side.push_back(imp(Z3_mk_eq(C, a.r, real(v)), Z3_mk_eq(C, r.r, real(x))));
        }
      }
    }
    return r;
  }
  FV F2(Expr* e) {
    unsigned w = e->w;
    if (w != 32 && w != 64) return bad();
    switch (e->op) {
      case O_CONST: {
        double d = val(e);
        if (!std::isfinite(d)) return bad();
        int g = 0;
        if (d != 0) { int ex; double m = std::frexp(d, &ex); long long mi = (long long)std::ldexp(m, 53); ex -= 53; while (!(mi & 1)) { mi >>= 1; ex++; } g = ex; } else g = 900;
        return {true, d, d, g, real(d)};
      }
      case O_VAR: {
        auto b = fb.find((uint32_t)e->c);
        if (b == fb.end() || !std::isfinite(b->second.first) || !std::isfinite(b->second.second)) return bad();
        auto& v = vF[(uint32_t)e->c];
        if (!v) { v = mk(sR); side.push_back(le(real(b->second.first), v)); side.push_back(le(v, real(b->second.second))); }
        return {true, b->second.first, b->second.second, NOG, v};
      }
      case O_FNEG: { FV a = F(e->k[0]); if (!a.ok) return a; return {true, -a.hi, -a.lo, a.g, Z3_mk_unary_minus(C, a.r)}; }
      case O_FABS: { FV a = F(e->k[0]); if (!a.ok) return a;
        if (a.lo >= 0) return a;
        if (a.hi <= 0) return {true, -a.hi, -a.lo, a.g, Z3_mk_unary_minus(C, a.r)};
        return {true, 0, std::max(-a.lo, a.hi), a.g, Z3_mk_ite(C, Z3_mk_ge(C, a.r, real(0)), a.r, Z3_mk_unary_minus(C, a.r))}; }
      case O_FADD: case O_FSUB: {
        FV a = F(e->k[0]), b = F(e->k[1]);
        if (!a.ok || !b.ok) return bad();
        bool s = e->op == O_FSUB;
        if (isC(e->k[1]) && val(e->k[1]) == 0) return a;
        if (isC(e->k[0]) && val(e->k[0]) == 0 && !s) return b;
        double lo = s ? a.lo - b.hi : a.lo + b.lo, hi = s ? a.hi - b.lo : a.hi + b.hi;
        int g = std::min(a.g, b.g);
        bool ex = std::fabs(lo) < 4e15 && std::fabs(hi) < 4e15 && g >= 0;
        return round(s ? sub(a.r, b.r) : add(a.r, b.r), ex || lo == 0 ? lo : dn(lo), ex || hi == 0 ? hi : up(hi), g, w, true);
      }
      case O_FMUL: {
        FV a = F(e->k[0]), b = F(e->k[1]);
        if (!a.ok || !b.ok) return bad();
        double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        double lo = c[0], hi = c[0];
        for (double x : c) { lo = std::min(lo, x); hi = std::max(hi, x); }
        if (e->k[0] == e->k[1] && lo < 0) lo = 0;
        int g = a.g == NOG || b.g == NOG ? NOG : std::min(900, a.g + b.g);
        bool nn = lo >= 0, np = hi <= 0;
        // squares of one operand, powers of two: exact scaling keeps granularity unknown but error free
        Expr* kc = isC(e->k[0]) ? e->k[0] : isC(e->k[1]) ? e->k[1] : nullptr;
        if (kc && g == NOG) {
          double d = std::fabs(val(kc)); int ex; double m = d ? std::frexp(d, &ex) : 0;
          if (m == 0.5 && d >= 1 && hi < (w == 32 ? 1e38 : 1e300) && lo > -(w == 32 ? 1e38 : 1e300)) return {true, lo, hi, NOG, mul(a.r, b.r)};
        }
        lo = nn && lo == 0 ? 0 : dn(lo); hi = np && hi == 0 ? 0 : up(hi);
        return round(mul(a.r, b.r), lo, hi, g, w);
      }
      case O_FDIV: {
        FV a = F(e->k[0]), b = F(e->k[1]);
        if (!a.ok || !b.ok || (b.lo <= 0 && b.hi >= 0)) return bad();
        double c[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
        double lo = c[0], hi = c[0];
        for (double x : c) { lo = std::min(lo, x); hi = std::max(hi, x); }
        bool nn = lo >= 0, np = hi <= 0;
        lo = nn && lo == 0 ? 0 : dn(lo); hi = np && hi == 0 ? 0 : up(hi);
        Z3_ast t;
        if (isC(e->k[1])) t = Z3_mk_div(C, a.r, b.r);
        else { t = mk(sR); side.push_back(Z3_mk_eq(C, mul(t, b.r), a.r)); }
        FV q = round(t, lo, hi, NOG, w);
        // an integral quotient is representable, hence exact
        if (q.ok && std::fabs(lo) <= 1e7 * (w == 32 ? 1 : 1e8) && std::fabs(hi) <= 1e7 * (w == 32 ? 1 : 1e8)) side.push_back(imp(Z3_mk_is_int(C, t), Z3_mk_eq(C, q.r, t)));
        return q;
      }
      case O_FMA: {
        FV a = F(e->k[0]), b = F(e->k[1]), d = F(e->k[2]);
        if (!a.ok || !b.ok || !d.ok) return bad();
        double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        double lo = c[0], hi = c[0];
        for (double x : c) { lo = std::min(lo, x); hi = std::max(hi, x); }
        return round(add(mul(a.r, b.r), d.r), dn(dn(lo) + d.lo), up(up(hi) + d.hi), NOG, w);
      }
      case O_FSQRT: {
        FV a = F(e->k[0]);
        if (!a.ok || a.lo < 0) return bad();
        // the root of a rounded square is the absolute value (up to underflow)
        { Expr* x = e->k[0];
          for (;;) {
            if (x->op == O_FADD && isC(x->k[1]) && val(x->k[1]) == 0) x = x->k[0];
            else if (x->op == O_FADD && isC(x->k[0]) && val(x->k[0]) == 0) x = x->k[1];
            else break;
          }
          if (x->op == O_FMUL && x->k[0] == x->k[1]) {
            FV v = F(x->k[0]); double M = std::max(std::fabs(v.lo), std::fabs(v.hi));
            if (v.ok && M < (w == 32 ? 1e18 : 1e150)) {
              approx = true;
              double tol = w == 32 ? 1e-18 : 1e-150;
              Z3_ast r = mk(sR), ab = Z3_mk_ite(C, Z3_mk_ge(C, v.r, real(0)), v.r, Z3_mk_unary_minus(C, v.r));
              side.push_back(Z3_mk_ge(C, r, real(0)));
              side.push_back(le(sub(r, ab), real(tol))); side.push_back(le(sub(ab, r), real(tol)));
              return {true, 0, M + tol, NOG, r};
            }
          } }
        Z3_ast s = mk(sR);
        side.push_back(Z3_mk_ge(C, s, real(0))); side.push_back(Z3_mk_eq(C, mul(s, s), a.r));
        double lo = std::sqrt(a.lo), hi = up(std::sqrt(a.hi));
        return round(s, lo > 0 ? dn(lo) : 0, hi, NOG, w);
      }
      case O_F2F: {
        FV a = F(e->k[0]);
        if (!a.ok) return a;
        if (w == 64) return a;
        return round(a.r, a.lo, a.hi, a.g, w);
      }
      case O_SI2F: case O_UI2F: {
        IV a = I(e->k[0]);
        Z3_ast s = a.s; s128 lo = a.lo, hi = a.hi;
        if (e->op == O_UI2F) U(e->k[0], s, lo, hi);
        return round(toReal(s), (double)lo > 0 && lo != (s128)(double)lo ? dn((double)lo) : ((s128)(double)lo == lo ? (double)lo : dn((double)lo)), (s128)(double)hi == hi ? (double)hi : up((double)hi), 0, w);
      }
      case O_FRND: {
        FV a = F(e->k[0]);
        if (!a.ok || std::fabs(a.lo) > 1e15 || std::fabs(a.hi) > 1e15) return bad();
        Z3_ast i = rint(a, e->aux);
        return {true, std::floor(a.lo), std::ceil(a.hi), 0, toReal(i)};
      }
      case O_ITE: {
        FV a = F(e->k[1]), b = F(e->k[2]);
        if (!a.ok || !b.ok) return bad();
        std::vector<Lim> ctx; auto r = under(e, ctx, 0);
        return {true, std::max(r.first, std::min(a.lo, b.lo)), std::min(r.second, std::max(a.hi, b.hi)), std::min(a.g, b.g), Z3_mk_ite(C, Bo(e->k[0]), a.r, b.r)};
      }
      case O_UF: {
        FV a = F(e->k[0]);
        if (!a.ok) return bad();
        double lo, hi;
        switch ((int)e->c) {
          case UF_SIN: case UF_COS: lo = -1; hi = 1; break;
          case UF_ATAN2: { FV b = F(e->k[1]); if (!b.ok) return bad(); lo = -3.1415928; hi = 3.1415928; break; }
          case UF_ATAN: lo = -1.5707964; hi = 1.5707964; break;
          case UF_EXP: lo = 0; hi = std::exp(a.hi) * 1.0001; if (!std::isfinite(hi)) return bad(); break;
          default: return bad();
        }
        approx = true;
        Z3_ast r = mk(sR);
        side.push_back(le(real(lo), r)); side.push_back(le(r, real(hi)));
        return {true, lo, hi, NOG, r};
      }
      default: return bad();
    }
  }
  // interval of e given limits on subterms implied by enclosing conditions
  struct Lim { Expr* x; double lo, hi; };
  void assume(Expr* c, bool v, std::vector<Lim>& ctx) {
    if (c->op == O_XOR && c->w == 1 && isC(c->k[1])) { assume(c->k[0], v != (c->k[1]->c != 0), ctx); return; }
    if (c->op == O_EQ && c->k[0]->w == 1 && isC(c->k[1])) { assume(c->k[0], v == (c->k[1]->c != 0), ctx); return; }
    if (c->op == O_AND && v) { assume(c->k[0], v, ctx); assume(c->k[1], v, ctx); return; }
    if (c->op == O_OR && !v) { assume(c->k[0], v, ctx); assume(c->k[1], v, ctx); return; }
    if (c->op != O_FLT && c->op != O_FLE && !(c->op == O_FEQ && v)) return;
    FV a = F(c->k[0]), b = F(c->k[1]);
    if (!a.ok || !b.ok) return;
    const double inf = INFINITY;
    if (c->op == O_FEQ) { ctx.push_back({c->k[0], b.lo, b.hi}); ctx.push_back({c->k[1], a.lo, a.hi}); }
    else if (v) { ctx.push_back({c->k[0], -inf, b.hi}); ctx.push_back({c->k[1], a.lo, inf}); }
    else { ctx.push_back({c->k[0], b.lo, inf}); ctx.push_back({c->k[1], -inf, a.hi}); }
  }
  std::pair<double, double> under(Expr* e, std::vector<Lim>& ctx, int depth) {
    FV a = e->op == O_ITE ? FV{true, -INFINITY, INFINITY, 0, nullptr} : F(e);
    double lo = a.lo, hi = a.hi;
    if (!a.ok) { lo = -INFINITY; hi = INFINITY; }
    for (auto& l : ctx) if (l.x == e) { lo = std::max(lo, l.lo); hi = std::min(hi, l.hi); }
    if (e->op == O_ITE && depth < 6) {
      size_t n = ctx.size();
      assume(e->k[0], true, ctx); auto x = under(e->k[1], ctx, depth + 1); ctx.resize(n);
      assume(e->k[0], false, ctx); auto y = under(e->k[2], ctx, depth + 1); ctx.resize(n);
      // an empty branch interval means that branch is infeasible
      if (x.first > x.second) x = y; else if (y.first > y.second) y = x;
      lo = std::max(lo, std::min(x.first, y.first)); hi = std::min(hi, std::max(x.second, y.second));
    }
    return {lo, hi};
  }
  Z3_ast rint(const FV& a, int rm) {
    Z3_ast i = mk(sI);
    Z3_ast x = a.r, ir = toReal(i);
    auto z = real(0), h = real(0.5), one = real(1);
    auto fl = [&]() { return land(le(ir, x), Z3_mk_lt(C, x, add(ir, one))); };
    auto cl = [&]() { return land(le(x, ir), Z3_mk_lt(C, sub(ir, one), x)); };
    switch (rm) {
      case RM_RTN: side.push_back(fl()); break;
      case RM_RTP: side.push_back(cl()); break;
      case RM_RTZ: side.push_back(a.lo >= 0 ? fl() : a.hi <= 0 ? cl() : Z3_mk_ite(C, Z3_mk_ge(C, x, z), fl(), cl())); break;
      case RM_RNA: { Z3_ast pos = land(le(sub(ir, h), x), Z3_mk_lt(C, x, add(ir, h))), neg = land(Z3_mk_lt(C, sub(ir, h), x), le(x, add(ir, h)));
        side.push_back(a.lo >= 0 ? pos : a.hi <= 0 ? neg : Z3_mk_ite(C, Z3_mk_ge(C, x, z), pos, neg)); break; }
      default: {
        side.push_back(land(le(sub(ir, h), x), le(x, add(ir, h))));
        // ties go to even
        Z3_ast ev = mk(sI); Z3_ast tie = lor(Z3_mk_eq(C, x, add(ir, h)), Z3_mk_eq(C, x, sub(ir, h)));
        side.push_back(imp(tie, Z3_mk_eq(C, i, mul(num(2, sI), ev))));
      }
    }
    return i;
  }
  // ---- integers
  IV anyI(unsigned w) {
    if (w > 64) throw Unsupported{};
    approx = true;
    s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
    return rangeI(mn, mx);
  }
  IV rangeI(s128 lo, s128 hi) { Z3_ast v = mk(sI); side.push_back(le(num(lo, sI), v)); side.push_back(le(v, num(hi, sI))); return {lo, hi, v}; }
  void U(Expr* e, Z3_ast& s, s128& lo, s128& hi) {
    IV a = I(e);
    s = a.s; lo = a.lo; hi = a.hi;
    if (a.lo >= 0) return;
    s128 m = (s128)1 << e->w;
    if (a.hi < 0) { s = add(a.s, num(m, sI)); lo = a.lo + m; hi = a.hi + m; return; }
    s = Z3_mk_ite(C, Z3_mk_lt(C, a.s, num(0, sI)), add(a.s, num(m, sI)), a.s);
    lo = 0; hi = m - 1;
  }
  bool dbg = getenv("SYMX_RELAX") != nullptr;
  IV I(Expr* e) {
    auto it = ci.find(e);
    if (it != ci.end()) return it->second;
    bool ap0 = approx; approx = false;
    IV r = I1(e);
    if (approx && dbg) fprintf(stderr, "approx int %s\n", exprStr(e, 3).c_str());
    approx |= ap0;
    return ci[e] = r;
  }
  // signed value of an exact integer t in [lo,hi], reduced to w bits
  IV wrap(Z3_ast t, s128 lo, s128 hi, unsigned w) {
    s128 m = (s128)1 << w, mn = -(m >> 1), mx = (m >> 1) - 1;
    if (lo >= mn && hi <= mx) return {lo, hi, t};
    IV v = rangeI(mn, mx);
    Z3_ast k = mk(sI);
    side.push_back(Z3_mk_eq(C, t, add(v.s, mul(num(m, sI), k))));
    return v;
  }

  IV I1(Expr* e) {

    unsigned w = e->w;
    if (w > 64) throw Unsupported{};
    s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
    if (w == 1 && e->op != O_CONST) { return {-1, 0, Z3_mk_ite(C, Bo(e), num(-1, sI), num(0, sI))}; }
    switch (e->op) {
      case O_CONST: { s128 v = sextw(e->c, w); return {v, v, num(v, sI)}; }
      case O_VAR: {
        if (gVars[(uint32_t)e->c].kind == 'f') return anyI(w);
        s128 lo = mn, hi = mx;
        auto b = ib.find((uint32_t)e->c);
        if (b != ib.end()) { lo = b->second.first; hi = b->second.second; }
        auto& v = vI[(uint32_t)e->c];
        if (!v) { v = mk(sI); side.push_back(le(num(lo, sI), v)); side.push_back(le(v, num(hi, sI))); }
        return {lo, hi, v};
      }
      case O_ADD: { IV a = I(e->k[0]), b = I(e->k[1]); return wrap(add(a.s, b.s), a.lo + b.lo, a.hi + b.hi, w); }
      case O_SUB: { IV a = I(e->k[0]), b = I(e->k[1]); return wrap(sub(a.s, b.s), a.lo - b.hi, a.hi - b.lo, w); }
      case O_MUL: {
        IV a = I(e->k[0]), b = I(e->k[1]);
        if (a.lo < -((s128)1 << 62) || a.hi > ((s128)1 << 62) || b.lo < -((s128)1 << 62) || b.hi > ((s128)1 << 62)) return anyI(w);
        s128 c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        s128 lo = c[0], hi = c[0];
        for (s128 x : c) { lo = std::min(lo, x); hi = std::max(hi, x); }
        return wrap(mul(a.s, b.s), lo, hi, w);
      }
      case O_SHL: if (isC(e->k[1]) && e->k[1]->c < 62) {
        IV a = I(e->k[0]); s128 m = (s128)1 << (int)e->k[1]->c;
        return wrap(mul(a.s, num(m, sI)), a.lo * m, a.hi * m, w);
      } return anyI(w);
      case O_ASHR: if (isC(e->k[1]) && e->k[1]->c < 62) {
        IV a = I(e->k[0]); s128 m = (s128)1 << (int)e->k[1]->c;
        return {a.lo >> (int)e->k[1]->c, a.hi >> (int)e->k[1]->c, Z3_mk_div(C, a.s, num(m, sI))};
      } return anyI(w);
      case O_LSHR: if (isC(e->k[1]) && e->k[1]->c > 0 && e->k[1]->c < 62) {
        Z3_ast s; s128 lo, hi; U(e->k[0], s, lo, hi); s128 m = (s128)1 << (int)e->k[1]->c;
        return {lo >> (int)e->k[1]->c, hi >> (int)e->k[1]->c, Z3_mk_div(C, s, num(m, sI))};
      } return anyI(w);
      case O_UDIV: case O_UREM: if (isC(e->k[1]) && e->k[1]->c) {
        Z3_ast s; s128 lo, hi; U(e->k[0], s, lo, hi); s128 m = (s128)e->k[1]->c;
        if (e->op == O_UDIV) return wrap(Z3_mk_div(C, s, num(m, sI)), lo / m, hi / m, w);
        return wrap(Z3_mk_mod(C, s, num(m, sI)), 0, m - 1, w);
      } return anyI(w);
      case O_SDIV: case O_SREM: if (isC(e->k[1]) && sextw(e->k[1]->c, w) > 0) {
        IV a = I(e->k[0]); s128 m = sextw(e->k[1]->c, w);
        Z3_ast q = a.lo >= 0 ? Z3_mk_div(C, a.s, num(m, sI)) : Z3_mk_ite(C, Z3_mk_ge(C, a.s, num(0, sI)), Z3_mk_div(C, a.s, num(m, sI)), sub(num(0, sI), Z3_mk_div(C, sub(num(0, sI), a.s), num(m, sI))));
        if (e->op == O_SDIV) return {a.lo / m, a.hi / m, q};
        return {a.lo >= 0 ? (s128)0 : -(m - 1), a.hi <= 0 ? (s128)0 : m - 1, sub(a.s, mul(num(m, sI), q))};
      } return anyI(w);
      case O_OR: case O_XOR: {
        Expr* c = isC(e->k[1]) ? e->k[1] : isC(e->k[0]) ? e->k[0] : nullptr;
        if (c) {
          Expr* o = c == e->k[1] ? e->k[0] : e->k[1];
          // disjoint bits: addition
          if (c->c && lowZerosOf(o) < 64 ? (c->c >> lowZerosOf(o)) == 0 : true) { IV a = I(o); s128 v = (s128)c->c; return wrap(add(a.s, num(v, sI)), a.lo + v, a.hi + v, w); }
        }
        return anyI(w);
      }
      case O_AND: {
        Expr* c = isC(e->k[1]) ? e->k[1] : isC(e->k[0]) ? e->k[0] : nullptr;
        if (c) {
          s128 m = (s128)c->c;
          Expr* o = c == e->k[1] ? e->k[0] : e->k[1];
          if (m >= 0 && m <= mx && ((m + 1) & m) == 0) {
            IV a = I(o);
            if (a.lo >= 0 && a.hi <= m) return a;
            return {0, m, Z3_mk_mod(C, a.s, num(m + 1, sI))};
          }
          if (m >= 0 && m <= mx) { approx = true; return rangeI(0, m); }
        }
        return anyI(w);
      }
      case O_ITE: {
        IV a = I(e->k[1]), b = I(e->k[2]);
        return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), Z3_mk_ite(C, Bo(e->k[0]), a.s, b.s)};
      }
      case O_ZEXT: { Z3_ast s; s128 lo, hi; U(e->k[0], s, lo, hi); return {lo, hi, s}; }
      case O_SEXT: return I(e->k[0]);
      case O_EXTRACT: {
        if (e->k[0]->w > 64) return anyI(w);
        IV a = I(e->k[0]);
        if (e->c == 0) return wrap(a.s, a.lo, a.hi, w);
        s128 m = (s128)1 << (int)e->c;
        return wrap(Z3_mk_div(C, a.s, num(m, sI)), a.lo >> (int)e->c, a.hi >> (int)e->c, w);
      }
      case O_CONCAT: {
        Z3_ast s; s128 lo, hi; U(e->k[1], s, lo, hi);
        IV a = I(e->k[0]); s128 m = (s128)1 << e->k[1]->w;
        return {a.lo * m + lo, a.hi * m + hi, add(mul(a.s, num(m, sI)), s)};
      }
      case O_F2SI: case O_F2UI: {
        FV a = F(e->k[0]);
        if (!a.ok) return anyI(w);
        double l = std::floor(a.lo), h = std::ceil(a.hi);
        if (e->op == O_F2UI) { if (l < 0 || h >= std::ldexp(1.0, w - 1)) return anyI(w); }
        else if (l < -std::ldexp(1.0, w - 1) || h >= std::ldexp(1.0, w - 1)) return anyI(w);
        Z3_ast i = rint(a, e->aux);
        return {(s128)l, (s128)h, i};
      }
      default: return anyI(w);
    }
  }
  // ---- booleans
  Z3_ast Bo(Expr* e) {
    auto it = cb.find(e);
    if (it != cb.end()) return it->second;
    bool ap0 = approx; approx = false;
    Z3_ast r = B1(e);
    if (approx && dbg) fprintf(stderr, "approx bool %s\n", exprStr(e, 3).c_str());
    approx |= ap0;
    return cb[e] = r;
  }
  Z3_ast anyB() { approx = true; return mk(sB); }
  Z3_ast B1(Expr* e) {
    switch (e->op) {
      case O_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
      case O_VAR: { IV dummy; (void)dummy; auto& v = vI[(uint32_t)e->c]; if (!v) { v = mk(sI); side.push_back(le(num(-1, sI), v)); side.push_back(le(v, num(0, sI))); } return Z3_mk_eq(C, v, num(-1, sI)); }
      case O_AND: return land(Bo(e->k[0]), Bo(e->k[1]));
      case O_OR: return lor(Bo(e->k[0]), Bo(e->k[1]));
      case O_XOR: if (isC(e->k[1])) return e->k[1]->c ? Z3_mk_not(C, Bo(e->k[0])) : Bo(e->k[0]); return Z3_mk_xor(C, Bo(e->k[0]), Bo(e->k[1]));
      case O_ITE: return Z3_mk_ite(C, Bo(e->k[0]), Bo(e->k[1]), Bo(e->k[2]));
      case O_EQ:
        if (e->k[0]->w == 1) return Z3_mk_iff(C, Bo(e->k[0]), Bo(e->k[1]));
        if (e->k[0]->w > 64) return anyB();
        { auto isF = [](Expr* x) { return (x->op >= O_FADD && x->op <= O_FABS) || x->op == O_F2F || x->op == O_SI2F || x->op == O_UI2F || x->op == O_FRND || x->op == O_UF || (x->op == O_VAR && gVars[(uint32_t)x->c].kind == 'f'); };
          if (isF(e->k[0]) || isF(e->k[1])) return anyB(); }
        return Z3_mk_eq(C, I(e->k[0]).s, I(e->k[1]).s);
      case O_SLT: return Z3_mk_lt(C, I(e->k[0]).s, I(e->k[1]).s);
      case O_SLE: return le(I(e->k[0]).s, I(e->k[1]).s);
      case O_ULT: case O_ULE: {
        Z3_ast a, b; s128 l, h; U(e->k[0], a, l, h); U(e->k[1], b, l, h);
        return e->op == O_ULT ? Z3_mk_lt(C, a, b) : le(a, b);
      }
      case O_FNAN: { FV a = F(e->k[0]); return a.ok ? Z3_mk_false(C) : anyB(); }
      case O_FEQ: case O_FLT: case O_FLE: {
        FV a = F(e->k[0]), b = F(e->k[1]);
        auto inf = [&](Expr* x) { return isC(x) && std::isinf(val(x)) ? (val(x) > 0 ? 1 : -1) : 0; };
        if (a.ok && inf(e->k[1])) return e->op != O_FEQ && inf(e->k[1]) > 0 ? Z3_mk_true(C) : Z3_mk_false(C);
        if (b.ok && inf(e->k[0])) return e->op != O_FEQ && inf(e->k[0]) < 0 ? Z3_mk_true(C) : Z3_mk_false(C);
        if (!a.ok || !b.ok) return anyB();
        return e->op == O_FEQ ? Z3_mk_eq(C, a.r, b.r) : e->op == O_FLT ? Z3_mk_lt(C, a.r, b.r) : le(a.r, b.r);
      }
      case O_EXTRACT: { IV a = I(e->k[0]); s128 m = (s128)1 << (int)e->c; Z3_ast d = e->c ? Z3_mk_div(C, a.s, num(m, sI)) : a.s; return Z3_mk_eq(C, Z3_mk_mod(C, d, num(2, sI)), num(1, sI)); }
      default: return anyB();
    }
  }
};
void relErr(Z3_context, Z3_error_code) {}
}  // namespace

// R_UNSAT is sound.  R_SAT: 'cand' holds candidate values that the caller must check.
static void readModel(Relax& R, Z3_solver S, std::vector<std::pair<uint32_t, u128>>* cand) {
  cand->clear();
      Z3_model M = Z3_solver_get_model(R.C, S);
      if (M) {
        Z3_model_inc_ref(R.C, M);
        for (auto& p : R.vF) { Z3_ast v = nullptr; if (Z3_model_eval(R.C, M, p.second, true, &v) && v) {
          double d = Z3_get_ast_kind(R.C, v) == Z3_NUMERAL_AST && !Z3_is_algebraic_number(R.C, v) ? Z3_get_numeral_double(R.C, v) : strtod(Z3_get_numeral_decimal_string(R.C, v, 20), nullptr);
          cand->push_back({p.first, gVars[p.first].w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d)}); } }
        for (auto& p : R.vI) { Z3_ast v = nullptr; if (Z3_model_eval(R.C, M, p.second, true, &v) && v) {
          std::string s = Z3_get_numeral_string(R.C, v); bool neg = s.size() && s[0] == '-'; u128 x = 0; for (char c : s) if (c != '-') x = x * 10 + (c - '0'); if (neg) x = -x;
          cand->push_back({p.first, x & maskw(gVars[p.first].w)}); } }
      }
}
Res relaxQuery(const std::vector<Expr*>& sel, unsigned timeoutMs, std::vector<std::pair<uint32_t, u128>>* cand) {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Relax R;
  R.C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(R.C, relErr);
  R.sI = Z3_mk_int_sort(R.C); R.sR = Z3_mk_real_sort(R.C); R.sB = Z3_mk_bool_sort(R.C);
  Res res = R_UNKNOWN;
  bool fpq = false; for (auto e : sel) fpq |= e->hasFP;
  try {
    for (auto e : sel) R.note(e, true);
    bool uf = false;
    std::set<uint32_t> vs;
    for (auto e : sel) for (auto v : *e->vars) { vs.insert(v); uf |= gVars[v].internal; }
    // a few cheap attempts at a model first
    if (!uf && vs.size() <= 12 && fpq) {
      uint64_t rng = 0x9E3779B97F4A7C15ull;
      auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
      for (int t = 0; t < 6; t++) {
        cand->clear();
        for (auto v : vs) {
          double u = (rnd() >> 11) * 0x1p-53;
          if (gVars[v].kind == 'f') {
            double lo = -1, hi = 1; auto b = R.fb.find(v);
            if (b != R.fb.end()) { if (std::isfinite(b->second.first)) lo = b->second.first; if (std::isfinite(b->second.second)) hi = b->second.second; if (lo > hi) hi = lo; }
            double d = lo + (hi - lo) * u;
            cand->push_back({v, gVars[v].w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d)});
          } else {
            double lo = -4, hi = 4; auto b = R.ib.find(v);
            if (b != R.ib.end()) { lo = (double)b->second.first; hi = (double)b->second.second; }
            cand->push_back({v, (u128)(s128)(lo + (hi - lo) * u) & maskw(gVars[v].w)});
          }
        }
        if (searchModel(sel, cand, 0.02)) { Z3_del_context(R.C); return R_SAT; }
      }
      cand->clear();
    }
    std::vector<Z3_ast> as;
    for (auto e : sel) as.push_back(R.Bo(e));
    size_t n = R.rnds.size();
    std::vector<Z3_ast> mono;  // rounding is monotone
    if (n <= 24) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) {
      auto &a = R.rnds[i], &b = R.rnds[j];
      if (a.p != b.p) continue;
      mono.push_back(R.imp(R.le(a.t, b.t), R.le(a.r, b.r)));
      mono.push_back(R.imp(R.le(b.t, a.t), R.le(b.r, a.r)));
    }
    Z3_solver S = nullptr;
    Z3_lbool r = Z3_L_UNDEF;
    for (int phase = -1; phase < 3; phase++) {
      if (phase < 0 && R.sideRel.empty()) continue;
      S = Z3_mk_solver(R.C);
      Z3_solver_inc_ref(R.C, S);
      Z3_params P = Z3_mk_params(R.C); Z3_params_inc_ref(R.C, P);
      Z3_params_set_uint(R.C, P, Z3_mk_string_symbol(R.C, "timeout"), timeoutMs / 3);
      if (phase != 1) Z3_params_set_uint(R.C, P, Z3_mk_string_symbol(R.C, "arith.solver"), 2);
      Z3_solver_set_params(R.C, S, P);
      for (auto a : as) Z3_solver_assert(R.C, S, a);
      for (auto a : R.side) Z3_solver_assert(R.C, S, a);
      if (phase >= 0) for (auto a : R.sideRel) Z3_solver_assert(R.C, S, a);
      if (phase > 0) for (auto a : mono) Z3_solver_assert(R.C, S, a);
      r = Z3_solver_check(R.C, S);
      if (getenv("SYMX_RELAX")) fprintf(stderr, "relax: phase %d: %d\n%s\n", phase, (int)r, atoi(getenv("SYMX_RELAX")) > 1 ? Z3_solver_to_string(R.C, S) : "");
      if (r == Z3_L_FALSE) break;
      if (r == Z3_L_TRUE && phase < 0) { r = Z3_L_UNDEF; continue; }
      if (r == Z3_L_TRUE) {
        readModel(R, S, cand);
        if (!uf && searchModel(sel, cand, 0.2)) { res = R_SAT; break; }
        r = Z3_L_UNDEF;
        if (mono.empty()) break;
      }
    }
    if (r == Z3_L_FALSE) res = R_UNSAT;
  } catch (Unsupported&) {}
  Z3_del_context(R.C);
  return res;
}
