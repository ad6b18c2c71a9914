#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

SolverStats gSS;
unsigned gTimeoutMs = 20000;
unsigned gExtTimeoutS = 120;
std::string gDumpDir;

static Z3_context C;
static Z3_sort sF32, sF64, sReal, sBool;
static Z3_ast rne, rna, rtz, rtp, rtn;
static std::unordered_map<Expr*, Z3_ast> cBV, cFP, cBool, cReal;
// definitional side constraints attached to nodes (fresh variables)
static std::unordered_map<Expr*, std::vector<Z3_ast>> sideOf;
static std::unordered_map<Expr*, std::set<Expr*>> dummy;

static void onErr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bvSort(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast asBV(Expr* e);
static Z3_ast asBool(Expr* e);
static Z3_ast asFP(Expr* e);
static Z3_ast asReal(Expr* e);
static Z3_ast rmAst(int rm) { return rm == RM_RNE ? rne : rm == RM_RNA ? rna : rm == RM_RTZ ? rtz : rm == RM_RTP ? rtp : rtn; }
static Z3_sort fpSort(unsigned w) { return w == 32 ? sF32 : sF64; }

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, onErr);
  sF32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sF32));
  sF64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sF64));
  sReal = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sReal));
  sBool = Z3_mk_bool_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, sBool));
  rne = keep(Z3_mk_fpa_rne(C)); rna = keep(Z3_mk_fpa_rna(C)); rtz = keep(Z3_mk_fpa_rtz(C)); rtp = keep(Z3_mk_fpa_rtp(C)); rtn = keep(Z3_mk_fpa_rtn(C));
}

static Z3_ast bvConst(u128 v, unsigned w) {
  char buf[64]; char* p = buf + 63; *p = 0;
  if (v == 0) { *--p = '0'; }
  while (v) { *--p = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(C, p, bvSort(w));
}
static Z3_ast mkVarAst(uint32_t id, char sortKind) {
  std::string n = "x" + std::to_string(id);
  Z3_symbol s = Z3_mk_string_symbol(C, n.c_str());
  return Z3_mk_const(C, s, sortKind == 'r' ? sReal : bvSort(gVars[id].w));
}
static bool isFPNode(Expr* e) {
  switch (e->op) {
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FMA: case O_FSQRT: case O_FNEG: case O_FABS: case O_F2F: case O_SI2F: case O_UI2F: case O_FRND: return true;
    case O_UF: return true;
    case O_ITE: return isFPNode(e->k[1]) || isFPNode(e->k[2]);
    default: return false;
  }
}
static Z3_ast asBV(Expr* e) {
  auto it = cBV.find(e);
  if (it != cBV.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = bvConst(e->c, e->w); break;
    case O_VAR: r = mkVarAst((uint32_t)e->c, 'b'); break;
    case O_UF: r = mkVarAst(ufVar(e), 'b'); break;
    case O_ADD: r = Z3_mk_bvadd(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SUB: r = Z3_mk_bvsub(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_MUL: r = Z3_mk_bvmul(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_UDIV: r = Z3_mk_bvudiv(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SDIV: r = Z3_mk_bvsdiv(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_UREM: r = Z3_mk_bvurem(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SREM: r = Z3_mk_bvsrem(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SHL: r = Z3_mk_bvshl(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_LSHR: r = Z3_mk_bvlshr(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_ASHR: r = Z3_mk_bvashr(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_AND: if (e->w > 1) r = Z3_mk_bvand(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_OR: if (e->w > 1) r = Z3_mk_bvor(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_XOR: if (e->w > 1) r = Z3_mk_bvxor(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_ITE: if (e->w > 1 && !isFPNode(e)) r = Z3_mk_ite(C, asBool(e->k[0]), asBV(e->k[1]), asBV(e->k[2])); break;
    case O_CONCAT: r = Z3_mk_concat(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->c + e->w - 1, (unsigned)e->c, asBV(e->k[0])); break;
    case O_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, asBV(e->k[0])); break;
    case O_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, asBV(e->k[0])); break;
    case O_F2SI: {
      unsigned w = e->w; Expr* k = e->k[0];
      Z3_ast f = asFP(k);
      Z3_ast rnd = Z3_mk_fpa_round_to_integral(C, rmAst(e->aux), f);
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, -std::ldexp(1.0, w - 1), fpSort(k->w));
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, w - 1), fpSort(k->w));
      Z3_ast cs[2] = {Z3_mk_fpa_leq(C, lo, rnd), Z3_mk_fpa_lt(C, rnd, hi)};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, cs), Z3_mk_fpa_to_sbv(C, rmAst(e->aux), f, w), bvConst((u128)1 << (w - 1), w));
      break;
    }
    case O_F2UI: {
      unsigned w = e->w; Expr* k = e->k[0];
      Z3_ast f = asFP(k);
      Z3_ast rnd = Z3_mk_fpa_round_to_integral(C, rmAst(e->aux), f);
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, 0.0, fpSort(k->w));
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, w), fpSort(k->w));
      Z3_ast cs[2] = {Z3_mk_fpa_leq(C, lo, rnd), Z3_mk_fpa_lt(C, rnd, hi)};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, cs), Z3_mk_fpa_to_ubv(C, rmAst(e->aux), f, w), bvConst(maskw(w), w));
      break;
    }
    default: break;
  }
  if (!r) {
    if (e->w == 1) {
      r = Z3_mk_ite(C, asBool(e), bvConst(1, 1), bvConst(0, 1));
    } else if (isFPNode(e)) {
      // bit pattern of an FP result: fresh variable, defined by reinterpretation
      Z3_ast f = asFP(e);
      std::string n = "fb" + std::to_string(e->id);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvSort(e->w));
      Z3_ast back = Z3_mk_fpa_to_fp_bv(C, r, fpSort(e->w));
      sideOf[e].push_back(keep(Z3_mk_eq(C, back, f)));
    } else {
      fprintf(stderr, "asBV: cannot lower op %d\n", e->op); abort();
    }
  }
  return cBV[e] = keep(r);
}
static Z3_ast asBool(Expr* e) {
  auto it = cBool.find(e);
  if (it != cBool.end()) return it->second;
  Z3_ast r = nullptr;
  auto fpOK = [&](Expr* x) { return gRealMode; };
  switch (e->op) {
    case O_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case O_AND: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; r = Z3_mk_and(C, 2, a); break; }
    case O_OR: { Z3_ast a[2] = {asBool(e->k[0]), asBool(e->k[1])}; r = Z3_mk_or(C, 2, a); break; }
    case O_XOR: if (isC(e->k[1])) r = Z3_mk_not(C, asBool(e->k[0])); else r = Z3_mk_xor(C, asBool(e->k[0]), asBool(e->k[1])); break;
    case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(C, asBool(e->k[0]), asBool(e->k[1])) : Z3_mk_eq(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_ULT: r = Z3_mk_bvult(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_ULE: r = Z3_mk_bvule(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_SLE: r = Z3_mk_bvsle(C, asBV(e->k[0]), asBV(e->k[1])); break;
    case O_ITE: r = Z3_mk_ite(C, asBool(e->k[0]), asBool(e->k[1]), asBool(e->k[2])); break;
    case O_FEQ: r = fpOK(e) ? Z3_mk_eq(C, asReal(e->k[0]), asReal(e->k[1])) : Z3_mk_fpa_eq(C, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FLT: r = fpOK(e) ? Z3_mk_lt(C, asReal(e->k[0]), asReal(e->k[1])) : Z3_mk_fpa_lt(C, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FLE: r = fpOK(e) ? Z3_mk_le(C, asReal(e->k[0]), asReal(e->k[1])) : Z3_mk_fpa_leq(C, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FNAN: r = Z3_mk_fpa_is_nan(C, asFP(e->k[0])); break;
    default: r = Z3_mk_eq(C, asBV(e), bvConst(1, 1)); break;
  }
  return cBool[e] = keep(r);
}
static Z3_ast asFP(Expr* e) {
  auto it = cFP.find(e);
  if (it != cFP.end()) return it->second;
  Z3_ast r = nullptr;
  Z3_sort s = fpSort(e->w);
  switch (e->op) {
    case O_FADD: r = Z3_mk_fpa_add(C, rne, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FSUB: r = Z3_mk_fpa_sub(C, rne, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FMUL: r = Z3_mk_fpa_mul(C, rne, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FDIV: r = Z3_mk_fpa_div(C, rne, asFP(e->k[0]), asFP(e->k[1])); break;
    case O_FMA: r = Z3_mk_fpa_fma(C, rne, asFP(e->k[0]), asFP(e->k[1]), asFP(e->k[2])); break;
    case O_FSQRT: r = Z3_mk_fpa_sqrt(C, rne, asFP(e->k[0])); break;
    case O_FNEG: r = Z3_mk_fpa_neg(C, asFP(e->k[0])); break;
    case O_FABS: r = Z3_mk_fpa_abs(C, asFP(e->k[0])); break;
    case O_F2F: r = Z3_mk_fpa_to_fp_float(C, rne, asFP(e->k[0]), s); break;
    case O_SI2F: r = Z3_mk_fpa_to_fp_signed(C, rne, asBV(e->k[0]), s); break;
    case O_UI2F: r = Z3_mk_fpa_to_fp_unsigned(C, rne, asBV(e->k[0]), s); break;
    case O_FRND: r = Z3_mk_fpa_round_to_integral(C, rmAst(e->aux), asFP(e->k[0])); break;
    case O_ITE: r = Z3_mk_ite(C, asBool(e->k[0]), asFP(e->k[1]), asFP(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, asBV(e), s); break;
  }
  return cFP[e] = keep(r);
}
static Z3_ast realOfDouble(double d) {
  if (std::isinf(d) || std::isnan(d)) { d = d > 0 ? 1e300 : -1e300; }
  int ex; double m = std::frexp(d, &ex);
  long long mi = (long long)std::ldexp(m, 53); ex -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; ex++; }
  if (mi == 0) ex = 0;
  // numeral mi * 2^ex as rational string
  auto pow2 = [](int n) { // decimal string of 2^n
    std::vector<int> dg{1};
    for (int i = 0; i < n; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); }
    std::string s; for (auto i = dg.rbegin(); i != dg.rend(); ++i) s += '0' + *i; return s; };
  std::string num = std::to_string(mi);
  if (ex >= 0) {
    Z3_ast a[2] = {Z3_mk_numeral(C, num.c_str(), sReal), Z3_mk_numeral(C, pow2(ex).c_str(), sReal)};
    return Z3_simplify(C, Z3_mk_mul(C, 2, a));
  }
  return Z3_mk_numeral(C, (num + "/" + pow2(-ex)).c_str(), sReal);
}
static Z3_ast asReal(Expr* e) {
  auto it = cReal.find(e);
  if (it != cReal.end()) return it->second;
  Z3_ast r = nullptr;
  auto bin = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const*)) { Z3_ast a[2] = {asReal(e->k[0]), asReal(e->k[1])}; return f(C, 2, a); };
  auto zero = [&]() { return Z3_mk_numeral(C, "0", sReal); };
  switch (e->op) {
    case O_CONST: r = realOfDouble(e->w == 32 ? (double)bits2f((uint32_t)e->c) : bits2d((uint64_t)e->c)); break;
    case O_VAR: r = mkVarAst((uint32_t)e->c, 'r'); break;
    case O_UF: r = mkVarAst(ufVar(e), 'r'); break;
    case O_FADD: r = bin(Z3_mk_add); break;
    case O_FSUB: r = bin(Z3_mk_sub); break;
    case O_FMUL: r = bin(Z3_mk_mul); break;
    case O_FDIV: r = Z3_mk_div(C, asReal(e->k[0]), asReal(e->k[1])); break;
    case O_FMA: { Z3_ast a[2] = {asReal(e->k[0]), asReal(e->k[1])}; Z3_ast b[2] = {Z3_mk_mul(C, 2, a), asReal(e->k[2])}; r = Z3_mk_add(C, 2, b); break; }
    case O_FNEG: r = Z3_mk_unary_minus(C, asReal(e->k[0])); break;
    case O_FABS: { Z3_ast x = asReal(e->k[0]); r = Z3_mk_ite(C, Z3_mk_lt(C, x, zero()), Z3_mk_unary_minus(C, x), x); break; }
    case O_F2F: r = asReal(e->k[0]); break;
    case O_ITE: r = Z3_mk_ite(C, asBool(e->k[0]), asReal(e->k[1]), asReal(e->k[2])); break;
    case O_FSQRT: {
      std::string n = "sq" + std::to_string(e->id);
      r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sReal);
      Z3_ast x = asReal(e->k[0]);
      Z3_ast mm[2] = {r, r};
      Z3_ast cs[2] = {Z3_mk_ge(C, r, zero()), Z3_mk_eq(C, Z3_mk_mul(C, 2, mm), x)};
      sideOf[e].push_back(keep(Z3_mk_implies(C, Z3_mk_ge(C, x, zero()), Z3_mk_and(C, 2, cs))));
      break;
    }
    case O_SI2F: case O_UI2F: {
      Z3_ast i = Z3_mk_bv2int(C, asBV(e->k[0]), e->op == O_SI2F);
      r = Z3_mk_int2real(C, i);
      break;
    }
    default: fprintf(stderr, "asReal: unsupported op %d\n", e->op); throw std::string("asReal unsupported op");
  }
  return cReal[e] = keep(r);
}

static void collectSides(Expr* e, std::set<Expr*>& seen, std::vector<Z3_ast>& out, std::vector<Expr*>& ufs) {
  if (isC(e) || e->op == O_VAR || !seen.insert(e).second) return;
  auto it = sideOf.find(e);
  if (it != sideOf.end()) for (auto a : it->second) out.push_back(a);
  if (e->op == O_UF) ufs.push_back(e);
  for (int i = 0; i < 3; i++) if (e->k[i]) collectSides(e->k[i], seen, out, ufs);
}

static void ufAxioms(const std::vector<Expr*>& ufs, std::vector<Z3_ast>& out) {
  auto val = [&](Expr* e) { return gRealMode ? asReal(e) : asFP(e); };
  for (size_t i = 0; i < ufs.size(); i++) {
    Expr* e = ufs[i];
    // congruence
    for (size_t j = 0; j < i; j++) {
      Expr* f = ufs[j];
      if (f->c != e->c || f->w != e->w) continue;
      std::vector<Z3_ast> eqs;
      for (int k = 0; k < 2; k++) if (e->k[k]) eqs.push_back(gRealMode ? Z3_mk_eq(C, asReal(e->k[k]), asReal(f->k[k])) : Z3_mk_eq(C, asBV(e->k[k]), asBV(f->k[k])));
      Z3_ast pre = Z3_mk_and(C, eqs.size(), eqs.data());
      out.push_back(Z3_mk_implies(C, pre, gRealMode ? Z3_mk_eq(C, val(e), val(f)) : Z3_mk_eq(C, asBV(e), asBV(f))));
    }
    // range facts
    if (gRealMode) {
      Z3_ast one = Z3_mk_numeral(C, "1", sReal);
      if (e->c == UF_SIN || e->c == UF_COS) {
        // pair with its partner on the same argument, if both occur
        for (size_t j = 0; j < ufs.size(); j++) {
          Expr* f = ufs[j];
          if (e->c == UF_SIN && f->c == UF_COS && f->k[0] == e->k[0]) {
            Z3_ast s2[2] = {val(e), val(e)}, c2[2] = {val(f), val(f)};
            Z3_ast sm[2] = {Z3_mk_mul(C, 2, s2), Z3_mk_mul(C, 2, c2)};
            out.push_back(Z3_mk_eq(C, Z3_mk_add(C, 2, sm), one));
          }
        }
        out.push_back(Z3_mk_le(C, val(e), one));
        out.push_back(Z3_mk_ge(C, val(e), Z3_mk_unary_minus(C, one)));
      }
      if (e->c == UF_EXP) out.push_back(Z3_mk_gt(C, val(e), Z3_mk_numeral(C, "0", sReal)));
    } else {
      Z3_sort s = fpSort(e->w);
      if (e->c == UF_SIN || e->c == UF_COS) {
        Z3_ast x = asFP(e->k[0]);
        Z3_ast bad[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_infinite(C, x)};
        Z3_ast rg[2] = {Z3_mk_fpa_leq(C, Z3_mk_fpa_numeral_double(C, -1, s), val(e)), Z3_mk_fpa_leq(C, val(e), Z3_mk_fpa_numeral_double(C, 1, s))};
        out.push_back(Z3_mk_ite(C, Z3_mk_or(C, 2, bad), Z3_mk_fpa_is_nan(C, val(e)), Z3_mk_and(C, 2, rg)));
      }
    }
  }
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> cache;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- external portfolio -------------------------------------------------
struct Ext { pid_t pid; std::string out; const char* name; };
static Res runExternal(const std::string& smt, const std::vector<uint32_t>& vars, std::map<uint32_t, std::string>& vals) {
  gSS.external++;
  char tmpl[] = "/tmp/symxqXXXXXX";
  int fd = mkstemp(tmpl);
  std::string base = tmpl;
  std::string body = "(set-option :produce-models true)\n(set-logic ALL)\n" + smt + "\n(check-sat)\n";
  if (!vars.empty()) {
    body += "(get-value (";
    for (auto v : vars) body += " x" + std::to_string(v);
    body += "))\n";
  }
  if (write(fd, body.data(), body.size()) < 0) {}
  close(fd);
  std::vector<std::vector<const char*>> cmds;
  std::string tz = "-T:" + std::to_string(gExtTimeoutS), tc = "--tlimit=" + std::to_string(gExtTimeoutS * 1000);
  cmds.push_back({"cvc5", "--lang=smt2", tc.c_str(), base.c_str(), nullptr});
  cmds.push_back({"/usr/local/bin/z3-new", tz.c_str(), base.c_str(), nullptr});
  cmds.push_back({"/usr/bin/z3", tz.c_str(), base.c_str(), nullptr});
  std::vector<Ext> procs;
  for (size_t i = 0; i < cmds.size(); i++) {
    std::string o = base + "." + std::to_string(i);
    pid_t p = fork();
    if (p == 0) {
      int f = open(o.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(f, 1); dup2(f, 2);
      execvp(cmds[i][0], (char* const*)cmds[i].data());
      _exit(127);
    }
    procs.push_back({p, o, cmds[i][0]});
  }
  Res res = R_UNKNOWN;
  size_t alive = procs.size();
  double deadline = now() + gExtTimeoutS + 5;
  while (alive && res == R_UNKNOWN && now() < deadline) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) { usleep(5000); continue; }
    if (p < 0) break;
    for (auto& x : procs) if (x.pid == p) {
      x.pid = 0; alive--;
      FILE* f = fopen(x.out.c_str(), "r");
      std::string s; char b[4096]; size_t n;
      while (f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
      if (f) fclose(f);
      if (s.compare(0, 5, "unsat") == 0) res = R_UNSAT;   // get-value errors after unsat are expected
      else if (s.compare(0, 3, "sat") == 0 && s.find("(error") == std::string::npos) {
        res = R_SAT;
        for (auto v : vars) {
          std::string key = "(x" + std::to_string(v) + " ";
          size_t q = s.find(key);
          if (q == std::string::npos) continue;
          q += key.size();
          size_t e = q; int dep = 0;
          while (e < s.size() && !(dep == 0 && s[e] == ')')) { if (s[e] == '(') dep++; if (s[e] == ')') dep--; e++; }
          vals[v] = s.substr(q, e - q);
        }
      }
    }
  }
  for (auto& x : procs) { if (x.pid) { kill(x.pid, SIGKILL); int st; waitpid(x.pid, &st, 0); } unlink(x.out.c_str()); }
  unlink(base.c_str());
  return res;
}
static u128 parseBV(const std::string& s) {
  u128 v = 0;
  if (s.size() > 2 && s[1] == 'x') for (size_t i = 2; i < s.size(); i++) { char c = s[i]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
  else if (s.size() > 2 && s[1] == 'b') for (size_t i = 2; i < s.size(); i++) v = v * 2 + (s[i] - '0');
  else if (s.compare(0, 6, "(_ bv") == 0 || s.compare(0, 5, "(_ bv") == 0) { for (size_t i = 5; i < s.size() && isdigit(s[i]); i++) v = v * 10 + (s[i] - '0'); }
  return v;
}
static double parseReal(const std::string& s) {
  // forms: 1.0  (- 1.0)  (/ 1 3)  (- (/ 1.0 3.0))
  std::string t; for (char c : s) t += c;
  size_t i = 0;
  struct P { const std::string& t; size_t& i;
    double go() {
      while (i < t.size() && isspace(t[i])) i++;
      if (i < t.size() && t[i] == '(') {
        i++; while (isspace(t[i])) i++;
        char op = t[i++];
        double a = go();
        while (i < t.size() && isspace(t[i])) i++;
        double r = a;
        if (op == '-' && t[i] == ')') r = -a;
        else if (op == '/') r = a / go();
        else if (op == '-') r = a - go();
        while (i < t.size() && t[i] != ')') i++;
        i++;
        return r;
      }
      char* e; double v = strtod(t.c_str() + i, &e); i = e - t.c_str();
      while (i < t.size() && t[i] == '?') i++;
      return v;
    } } p{t, i};
  return p.go();
}

// Hill climbing on the exact evaluator, starting from 'cand'; true iff it ends in a model.
static double fit(Expr* e, bool want, const Model& m, int depth) {
  if (depth < 12 && e->w == 1) {
    if (e->op == O_XOR && isC(e->k[1])) return fit(e->k[0], want != (e->k[1]->c != 0), m, depth + 1);
    if ((e->op == O_AND) == want && (e->op == O_AND || e->op == O_OR)) return 0.5 * (fit(e->k[0], want, m, depth + 1) + fit(e->k[1], want, m, depth + 1));
    if (e->op == O_AND || e->op == O_OR) return std::max(fit(e->k[0], want, m, depth + 1), fit(e->k[1], want, m, depth + 1));
  }
  bool ok = (evalExpr(e, m) != 0) == want;
  if (ok) return 1;
  // graded by the distance of the compared values
  double d = -1;
  auto flt = [&](Expr* x) { u128 b = evalExpr(x, m); return x->w == 32 ? (double)bits2f((uint32_t)b) : bits2d((uint64_t)b); };
  if (e->op == O_FEQ || e->op == O_FLT || e->op == O_FLE) d = std::fabs(flt(e->k[0]) - flt(e->k[1]));
  else if ((e->op == O_SLT || e->op == O_SLE || e->op == O_EQ) && e->k[0]->w <= 64) d = std::fabs((double)(sextw(evalExpr(e->k[0], m), e->k[0]->w) - sextw(evalExpr(e->k[1], m), e->k[1]->w)));
  if (!(d >= 0) || !std::isfinite(d)) return 0;
  return 0.9 / (1 + d);
}
bool searchModel(const std::vector<Expr*>& sel, std::vector<std::pair<uint32_t, u128>>* cand, double budget) {
  if (cand->empty()) return false;
  Model m; for (auto& p : *cand) m.set(p.first, p.second);
  auto score = [&](const Model& mm) { double k = 0; for (auto e : sel) k += fit(e, true, mm, 0); return k; };
  auto sat = [&](const Model& mm) { for (auto e : sel) if (!evalExpr(e, mm)) return false; return true; };
  if (!sat(m)) {
    double best = score(m), t1 = now(); uint64_t rng = 88172645463325252ull; bool ok = false;
    auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    for (int it = 0; it < 20000 && now() - t1 < budget; it++) {
      Model n = m;
      int muts = 1 + rnd() % 2;
      for (int q = 0; q < muts; q++) {
        uint32_t v = (*cand)[rnd() % cand->size()].first;
        auto& I = gVars[v];
        if (I.kind == 'f') {
          double d = I.w == 32 ? bits2f((uint32_t)m.get(v)) : bits2d((uint64_t)m.get(v));
          double step = std::ldexp(1.0, -(int)(rnd() % 40)) * std::max(std::fabs(d), 1.0);
          if (rnd() % 4 == 0) { double g = std::ldexp(1.0, -(int)(rnd() % 12)); d = std::floor(d / g + 0.5) * g; }
          else d += (rnd() & 1) ? step : -step;
          n.set(v, I.w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d));
        } else { int64_t d = (int64_t)(rnd() % 5) - 2; n.set(v, (m.get(v) + (u128)(s128)d) & maskw(I.w)); }
      }
      double k = score(n);
      if (k >= best) { best = k; m = n; if (sat(m)) { ok = true; break; } }
    }
    if (!ok) return false;
  }
  for (auto& p : *cand) p.second = m.get(p.first);
  return true;
}
static bool bigDag(const std::vector<Expr*>& es, size_t lim) {
  std::unordered_set<Expr*> seen; std::vector<Expr*> st(es.begin(), es.end());
  while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (seen.size() > lim) return true; for (auto k : e->k) if (k) st.push_back(k); }
  return false;
}
Res solveQuery(const std::vector<Expr*>& pc, Expr* cond, Model* out) {
  if (isC(cond) && !cond->c) return R_UNSAT;
  // independence slicing
  std::vector<Expr*> sel;
  sel.push_back(cond);
  std::vector<char> used(pc.size(), 0);
  std::set<uint32_t> vs(cond->vars->begin(), cond->vars->end());
  bool all = isC(cond);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = all;
      if (!hit) for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; sel.push_back(pc[i]); for (auto v : *pc[i]->vars) if (vs.insert(v).second) ch = true; }
    }
  }
  std::vector<uint32_t> key;
  for (auto e : sel) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto ci = cache.find(key);
  if (ci != cache.end()) {
    gSS.cacheHits++;
    if (ci->second.r == R_SAT && out) for (auto& p : ci->second.m) out->set(p.first, p.second);
    return ci->second.r;
  }
  double t0 = now();
  gSS.queries++;
  // Formulas over at most 17 free bits with floating point or large tables: complete
  // case analysis over the assignments with the exact evaluator.
  if (!gRealMode) {
    // domain of each variable: its width, or the interval its own range constraints give
    std::map<uint32_t, std::pair<s128, s128>> iv;
    for (auto e : sel) if (e->op == O_SLE) {
      Expr *x = e->k[0], *y = e->k[1];
      auto sx = [](Expr* c) { return (s128)(c->c << (128 - c->w)) >> (128 - c->w); };
      auto full = [](unsigned w) { return std::make_pair(-((s128)1 << (w - 1)), ((s128)1 << (w - 1)) - 1); };
      if (x->op == O_CONST && y->op == O_VAR) { auto& r = iv.emplace((uint32_t)y->c, full(y->w)).first->second; r.first = std::max(r.first, sx(x)); }
      if (x->op == O_VAR && y->op == O_CONST) { auto& r = iv.emplace((uint32_t)x->c, full(x->w)).first->second; r.second = std::min(r.second, sx(y)); }
    }
    double cases = 1; bool ufv = false;
    std::vector<uint32_t> vv(vs.begin(), vs.end());
    std::vector<std::pair<s128, uint64_t>> dom;   // first value, count
    for (auto v : vv) {
      ufv |= gVars[v].internal;
      auto it = iv.find(v);
      double n = it != iv.end() ? (double)(it->second.second - it->second.first + 1) : std::ldexp(1.0, gVars[v].w);
      if (n < 0) n = 0;
      cases *= n;
      dom.push_back({it != iv.end() ? it->second.first : 0, n > 1e9 ? 0 : (uint64_t)n});
    }
    bool fpq = false; for (auto e : sel) fpq |= e->hasFP;
    if (!ufv && !vv.empty() && cases <= 131072 && (fpq || cases <= 256 || bigDag(sel, 3000))) {
      Model m; bool found = false, complete = true;
      std::vector<Expr*> ord(sel.rbegin(), sel.rend());
      for (uint64_t a = 0; a < (uint64_t)cases && !found; a++) {
        uint64_t x = a;
        for (size_t i = 0; i < vv.size(); i++) { m.set(vv[i], (u128)(dom[i].first + (s128)(x % dom[i].second)) & maskw(gVars[vv[i]].w)); x /= dom[i].second; }
        bool ok = true;
        for (auto e : ord) if (!evalExpr(e, m)) { ok = false; break; }
        if (ok) found = true;
        if ((a & 255) == 255 && now() - t0 > 30) { complete = false; break; }
      }
      if (found || complete) {
        CacheEnt ent; ent.r = found ? R_SAT : R_UNSAT;
        if (found) { for (auto v : vv) ent.m.push_back({v, m.get(v)}); gSS.sat++; if (out) for (auto& p : ent.m) out->set(p.first, p.second); }
        else gSS.unsat++;
        gSS.finite++;
        double dt = now() - t0; gSS.time += dt; if (dt > gSS.maxTime) gSS.maxTime = dt;
        Res r = ent.r; cache[key] = std::move(ent);
        return r;
      }
    }
  }
  // Refutations are often easy: a few assignments within the ranges of the inputs, each
  // checked with the exact evaluator, before the solver is asked.  Never used to prove.
  if (!gRealMode) {
    bool fpq = false, ufv = false;
    for (auto e : sel) fpq |= e->hasFP;
    for (auto v : vs) ufv |= gVars[v].internal;
    if (fpq && !ufv && !vs.empty()) {
      std::map<uint32_t, std::pair<double, double>> fr; std::map<uint32_t, std::pair<s128, s128>> ir;
      auto num = [](Expr* c) { return c->w == 32 ? (double)bits2f((uint32_t)c->c) : bits2d((uint64_t)c->c); };
      for (auto e : sel) {
        Expr *x = e->k[0], *y = e->k[1];
        if (e->op == O_FLE && x->op == O_CONST && y->op == O_VAR) fr.emplace((uint32_t)y->c, std::make_pair(-1e3, 1e3)).first->second.first = num(x);
        if (e->op == O_FLE && x->op == O_VAR && y->op == O_CONST) fr.emplace((uint32_t)x->c, std::make_pair(-1e3, 1e3)).first->second.second = num(y);
        auto sx = [](Expr* c) { return (s128)(c->c << (128 - c->w)) >> (128 - c->w); };
        if (e->op == O_SLE && x->op == O_CONST && y->op == O_VAR) ir.emplace((uint32_t)y->c, std::make_pair((s128)0, sx(x) + 100)).first->second.first = sx(x);
        if (e->op == O_SLE && x->op == O_VAR && y->op == O_CONST) ir.emplace((uint32_t)x->c, std::make_pair((s128)0, (s128)0)).first->second.second = sx(y);
      }
      static uint64_t rng = 0x9e3779b97f4a7c15ull;
      auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
      for (int k = 0; k < 24; k++) {
        Model m;
        for (auto v : vs) {
          auto& I = gVars[v];
          if (out && rnd() % 4 == 0) { m.set(v, out->get(v)); continue; }
          if (I.kind == 'f') {
            auto it = fr.find(v); double lo = it == fr.end() ? -1e3 : it->second.first, hi = it == fr.end() ? 1e3 : it->second.second;
            double u = (rnd() >> 11) * 0x1p-53, d = lo + u * (hi - lo);
            if (k % 3 == 1) d = std::floor(d * 4) / 4;
            if (d < lo) d = lo; if (d > hi) d = hi;
            m.set(v, I.w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d));
          } else {
            auto it = ir.find(v); s128 n = it == ir.end() ? 0 : it->second.second - it->second.first + 1;
            m.set(v, n > 0 ? (u128)(it->second.first + (s128)(rnd() % (uint64_t)n)) & maskw(I.w) : (u128)rnd() & maskw(I.w));
          }
        }
        bool ok = true;
        for (auto e : sel) if (!evalExpr(e, m)) { ok = false; break; }
        if (ok) {
          CacheEnt ent; ent.r = R_SAT;
          for (auto v : vs) ent.m.push_back({v, m.get(v)});
          gSS.sat++;
          if (out) for (auto& q : ent.m) out->set(q.first, q.second);
          double dt = now() - t0; gSS.time += dt; if (dt > gSS.maxTime) gSS.maxTime = dt;
          cache[key] = std::move(ent);
          return R_SAT;
        }
        if (now() - t0 > 0.5) break;
      }
    }
  }
  std::vector<Z3_ast> as;
  std::set<Expr*> seen;
  std::vector<Expr*> ufs;
  bool fp = false;
  std::vector<Z3_ast> sides;
  for (auto e : sel) { as.push_back(asBool(e)); fp |= e->hasFP; }
  for (auto e : sel) collectSides(e, seen, sides, ufs);
  ufAxioms(ufs, sides);
  // lowering axioms may itself create side constraints; one more pass
  { std::set<Expr*> s2; std::vector<Z3_ast> sd; std::vector<Expr*> u2; for (auto e : sel) collectSides(e, s2, sd, u2); for (auto a : sd) sides.push_back(a); }
  CacheEnt ent;
  Res res = R_UNKNOWN;
  auto tryRelax = [&](unsigned ms) {
    std::vector<std::pair<uint32_t, u128>> cand;
    Res q = relaxQuery(sel, ms, &cand);
    if (q == R_UNSAT) { res = q; gSS.relaxed++; }
    else if (q == R_SAT) { res = q; ent.m = cand; }
  };
  bool relaxable = !gRealMode;
  if (relaxable && fp) tryRelax(1500);
  Z3_solver S;
  if (gRealMode && fp) { Z3_tactic t = Z3_mk_tactic(C, "qfnra"); Z3_tactic_inc_ref(C, t); S = Z3_mk_solver_from_tactic(C, t); }
  else if (gRealMode) S = Z3_mk_simple_solver(C);
  else if (fp) { static Z3_tactic t = nullptr; if (!t) { t = Z3_mk_tactic(C, "qffp"); Z3_tactic_inc_ref(C, t); } S = Z3_mk_solver_from_tactic(C, t); }
  else { static Z3_tactic t = nullptr; if (!t) { t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t); } S = Z3_mk_solver_from_tactic(C, t); }
  Z3_solver_inc_ref(C, S);
  Z3_params P = Z3_mk_params(C); Z3_params_inc_ref(C, P);
  Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), gTimeoutMs);
  Z3_solver_set_params(C, S, P);
  for (auto a : as) Z3_solver_assert(C, S, a);
  for (auto a : sides) Z3_solver_assert(C, S, a);
  Z3_lbool r = Z3_L_UNDEF;
  if (res == R_UNKNOWN && relaxable && !fp) {
    // bit-vector query: a short bit-blasted attempt, then linear integer reasoning
    Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), std::min(gTimeoutMs, 1500u));
    Z3_solver_set_params(C, S, P);
    r = Z3_solver_check(C, S);
    res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_UNKNOWN) tryRelax(std::min(gTimeoutMs, 10000u));
    Z3_params_set_uint(C, P, Z3_mk_string_symbol(C, "timeout"), gTimeoutMs);
    Z3_solver_set_params(C, S, P);
  }
  if (res == R_UNKNOWN) {
    r = Z3_solver_check(C, S);
    res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (res == R_UNKNOWN && relaxable) tryRelax(gTimeoutMs);
  }
  if (r == Z3_L_TRUE) {
    Z3_model M = Z3_solver_get_model(C, S);
    Z3_model_inc_ref(C, M);
    for (auto v : vs) {
      bool real = gRealMode && gVars[v].kind == 'f';
      Z3_ast x = mkVarAst(v, real ? 'r' : 'b');
      Z3_inc_ref(C, x);
      Z3_ast val = nullptr;
      if (Z3_model_eval(C, M, x, true, &val) && val) {
        Z3_inc_ref(C, val);
        u128 b = 0;
        if (real) {
          double d = 0;
          if (Z3_get_ast_kind(C, val) == Z3_NUMERAL_AST && !Z3_is_algebraic_number(C, val)) d = Z3_get_numeral_double(C, val);
          else { std::string s = Z3_get_numeral_decimal_string(C, val, 20); d = strtod(s.c_str(), nullptr); }
          b = gVars[v].w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d);
        } else {
          std::string s = Z3_get_numeral_string(C, val);
          for (char c : s) b = b * 10 + (c - '0');
        }
        ent.m.push_back({v, b});
        Z3_dec_ref(C, val);
      }
      Z3_dec_ref(C, x);
    }
    Z3_model_dec_ref(C, M);
  } else if (res == R_UNKNOWN) {
    std::string smt = Z3_solver_to_string(C, S);
    std::vector<uint32_t> ask;
    for (auto v : vs) if (smt.find("x" + std::to_string(v)) != std::string::npos) ask.push_back(v);
    // keep only those actually declared
    std::vector<uint32_t> ask2;
    for (auto v : ask) if (smt.find("x" + std::to_string(v) + " ()") != std::string::npos) ask2.push_back(v);
    std::map<uint32_t, std::string> vals;
    res = runExternal(smt, ask2, vals);
    for (auto& p : vals) {
      bool real = gRealMode && gVars[p.first].kind == 'f';
      u128 b;
      if (real) { double d = parseReal(p.second); b = gVars[p.first].w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d); }
      else b = parseBV(p.second);
      ent.m.push_back({p.first, b});
    }
    if (res == R_UNKNOWN && !gDumpDir.empty()) {
      static int n = 0;
      std::string fn = gDumpDir + "/unknown" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
      FILE* f = fopen(fn.c_str(), "w"); if (f) { fputs("(set-logic ALL)\n", f); fputs(smt.c_str(), f); fputs("\n(check-sat)\n", f); fclose(f); }
    }
  }
  Z3_params_dec_ref(C, P);
  Z3_solver_dec_ref(C, S);
  double dt = now() - t0;
  gSS.time += dt;
  if (dt > gSS.maxTime) gSS.maxTime = dt;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) fprintf(stderr, "slow query %.2fs res=%d cond=%s\n", dt, res, exprStr(cond, 8).c_str());
  if (res == R_SAT) gSS.sat++; else if (res == R_UNSAT) gSS.unsat++; else gSS.unknown++;
  ent.r = res;
  if (res == R_SAT && out) for (auto& p : ent.m) out->set(p.first, p.second);
  // a model must satisfy the query under the engine's own evaluator
  if (res == R_SAT && !gRealMode && out) {
    bool ok = true;
    for (auto e : sel) if (!evalExpr(e, *out)) ok = false;
    if (!ok && ufs.empty()) { fprintf(stderr, "WARNING: solver model rejected by evaluator\n"); if (getenv("SYMX_STRICT")) abort(); }
  }
  if (res != R_UNKNOWN) cache[key] = std::move(ent);
  return res;
}
