// Execution.
static std::string shortPath(StringRef f) {
  std::string s = f.str();
  if (s.rfind("/repo/", 0) == 0) return s.substr(6);
  size_t p = s.rfind("harness/"); if (p != std::string::npos) return s.substr(p);
  p = s.rfind('/'); return p == std::string::npos ? s : s.substr(p + 1);
}
static std::string whereOf(const Instruction* I) {
  if (!I) return "";
  std::string s;
  if (auto* D = I->getDebugLoc().get()) {
    s = shortPath(D->getFilename()) + ":" + std::to_string(D->getLine());
    for (auto* ia = D->getInlinedAt(); ia; ia = ia->getInlinedAt()) s += " < " + shortPath(ia->getFilename()) + ":" + std::to_string(ia->getLine());
  } else s = demangle(I->getFunction()->getName().str());
  return s;
}
static void coverBlock(FuncInfo* f, Blk& b) {
  b.seen = true;
  auto add = [&](const std::string& link) {
    std::string d = demangle(link);
    size_t q = d.find("cartographer::"), st = d.find("std::");
    if (q != std::string::npos && !(st < q) && d.compare(0, 2, "gn") != 0 && d.find("__gnu") > q) {
      size_t p = d.find('(');
      if (p != std::string::npos && p > 0) d = d.substr(0, p);
      if (d.size() < 200) funcsSeen.insert(d);
    }
  };
  add(f->F->getName().str());
  for (auto& x : b.ins) if (x.I) if (auto* D = x.I->getDebugLoc().get())
    for (const DILocation* L = D; L; L = L->getInlinedAt())
      if (auto* SP = L->getScope()->getSubprogram()) if (!SP->getLinkageName().empty()) add(SP->getLinkageName().str());
}

static inline const SV& get(const Frame& f, const Opnd& o, unsigned i = 0) { return o.slot >= 0 ? f.r[o.slot + i] : o.k[i]; }

static void ensureModel(State& s) {
  if (s.modelOk) return;
  Model m = s.model;
  Res r = solveQuery(s.pc, mkConst(1, 1), &m);
  if (r == R_UNSAT) throw PathEnd{"infeasible"};
  if (r == R_UNKNOWN) throw Unsup{"no model for symbolic pointer/size (solver unknown)"};
  s.model = m;
  if (!gRealMode) s.modelOk = true;
}
static StateP cloneState(State& s) { gForks++; s.forks++; StateP n(new State(s)); return n; }

static std::string hexv(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "%llx", (unsigned long long)v); return b; }
static void addViolation(State& s, const std::string& kind, const std::string& label, const Model& m) {
  std::string key = kind + ":" + label;
  if (!violLabels.insert(key).second) return;
  Violation v;
  v.kind = kind; v.label = label;
  for (uint32_t id : s.inputs) v.inputs.push_back({gVars[id].name, hexv(m.get(id))});
  auto& st = s.th[s.cur].st;
  if (!st.empty()) {
    auto& f = st.back();
    if (f.idx < f.f->b[f.blk].ins.size()) v.where = whereOf(f.f->b[f.blk].ins[f.idx].I);
    for (auto it = st.rbegin(); it != st.rend() && v.stack.size() < 20; ++it) { const Instruction* I = it->idx < it->f->b[it->blk].ins.size() ? it->f->b[it->blk].ins[it->idx].I : nullptr; v.stack.push_back(it->f->name + " @ " + whereOf(I)); }
  }
  v.sched = s.sched;
  violations.push_back(v);
  if (gDeadline > 0) gDeadline = std::min((double)gDeadline, nowS() + 60);   // enough to report
}
// A violation on the current path (no extra condition).
static void failPath(State& s, const std::string& kind, const std::string& label) {
  if (s.crashOk && kind != "deadlock" && kind != "race") { gCrashPaths++; throw PathEnd{"expected crash"}; }
  if (!s.modelOk) {
    Model m = s.model;
    Res r = solveQuery(s.pc, mkConst(1, 1), &m);
    if (r == R_UNSAT) throw PathEnd{"infeasible"};
    if (r == R_UNKNOWN) { incomplete.insert("path feasibility unknown at failure: " + label); throw PathEnd{"unknown"}; }
    s.model = m;
  }
  addViolation(s, kind, label, s.model);
  throw PathEnd{"violation"};
}
static std::string locLabel(State& s) {
  auto& f = s.th[s.cur].st.back();
  return f.idx < f.f->b[f.blk].ins.size() ? whereOf(f.f->b[f.blk].ins[f.idx].I) : f.f->name;
}
static void memErr(State& s, const std::string& what) { failPath(s, "memory", what + " at " + locLabel(s)); }

static void addPC(State& s, Expr* e) { if (isC(e)) return; s.pc.push_back(e); }

// Decide a symbolic condition: returns the side taken by 's'; pushes the other
// side (if feasible) as a new state prepared by 'fix'.
static bool forkOn(State& s, Expr* c, const std::function<void(State&, bool)>& fix) {
  if (isC(c)) return c->c;
  if (s.modelOk) {
    bool v = evalExpr(c, s.model) != 0;
    Expr* other = v ? mkNot(c) : c;
    Model m = s.model;
    Res r = solveQuery(s.pc, other, &m);
    if (r == R_UNSAT) return v;
    StateP n = cloneState(s);
    addPC(*n, other);
    if (r == R_SAT) n->model = m; else n->modelOk = false;
    addPC(s, v ? c : mkNot(c));
    fix(*n, !v);
    work.push_back(std::move(n));
    return v;
  }
  Model m1 = s.model, m0 = s.model;
  Res r1 = solveQuery(s.pc, c, &m1);
  if (r1 == R_UNSAT) return false;
  Res r0 = solveQuery(s.pc, mkNot(c), &m0);
  if (r0 == R_UNSAT) return true;
  StateP n = cloneState(s);
  addPC(*n, mkNot(c));
  if (r0 == R_SAT) n->model = m0;
  fix(*n, false);
  work.push_back(std::move(n));
  addPC(s, c);
  if (r1 == R_SAT) s.model = m1;
  return true;
}
static void assume(State& s, Expr* c) {
  if (isC(c)) { if (!c->c) { gPathsKilledByAssume++; throw PathEnd{"assume"}; } return; }
  if (s.modelOk && evalExpr(c, s.model)) { addPC(s, c); return; }
  Model m = s.model;
  Res r = solveQuery(s.pc, c, &m);
  if (r == R_UNSAT) { gPathsKilledByAssume++; throw PathEnd{"assume"}; }
  addPC(s, c);
  if (r == R_SAT) { s.model = m; } else s.modelOk = false;
}
// Concretise: the state keeps one value, the others are explored by re-executing
// the current instruction.
static uint64_t concretize(State& s, const SV& v, unsigned w) {
  if (!v.e) return v.c;
  ensureModel(s);
  uint64_t val = (uint64_t)evalExpr(v.e, s.model);
  Expr* eq = mkBin(O_EQ, v.e, mkConst(val, w));
  if (isC(eq)) return val;
  Model m = s.model;
  Res r = solveQuery(s.pc, mkNot(eq), &m);
  if (r != R_UNSAT) {
    StateP n = cloneState(s);
    addPC(*n, mkNot(eq));
    if (r == R_SAT) n->model = m; else n->modelOk = false;
    work.push_back(std::move(n));
    addPC(s, eq);
    if (!s.modelOk) {  // real mode: make sure this side is feasible
      Model mm = s.model; Res rr = solveQuery(s.pc, mkConst(1, 1), &mm);
      if (rr == R_UNSAT) throw PathEnd{"infeasible"};
    }
  }
  return val;
}

// ---------------------------------------------------------------- races
static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static uint32_t vcGet(const VC& v, int t) { return (size_t)t < v.size() ? v[t] : 0; }
static void vcInc(Thread& t, int id) { if (t.vc.size() <= (size_t)id) t.vc.resize(id + 1, 0); t.vc[id]++; }
static thread_local bool inAtomic = false;   // atomic accesses order, they never race
struct AtomicScope { AtomicScope() { inAtomic = true; } ~AtomicScope() { inAtomic = false; } };
static void raceCheck(State& s, uint64_t addr, unsigned n, bool write) {
  if (s.th.size() < 2 || inAtomic) return;
  if (!s.shadow) s.shadow = std::make_shared<ShadowMap>();
  if (s.shadow.use_count() > 1) s.shadow = std::make_shared<ShadowMap>(*s.shadow);
  auto& vc = s.th[s.cur].vc;
  uint32_t my = vcGet(vc, s.cur);
  // byte granularity folded to 4-byte cells unless smaller
  for (uint64_t a = addr; a < addr + n; a += (n >= 4 && !(addr & 3)) ? 4 : 1) {
    Shadow& h = (*s.shadow)[a];
    if (h.wt >= 0 && h.wt != s.cur && h.wc > vcGet(vc, h.wt)) failPath(s, "race", std::string("data race (") + (write ? "write" : "read") + " after unordered write) at " + locLabel(s));
    if (write) {
      for (auto& r : h.rd) if (r.first != s.cur && r.second > vcGet(vc, r.first)) failPath(s, "race", "data race (write after unordered read) at " + locLabel(s));
      h.rd.clear(); h.wt = s.cur; h.wc = my;
    } else {
      bool f = false;
      for (auto& r : h.rd) if (r.first == s.cur) { r.second = my; f = true; }
      if (!f) h.rd.push_back({s.cur, my});
    }
  }
}

// ---------------------------------------------------------------- memory
static Obj* objAt(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off) {
  uint64_t id = addr >> 32;
  off = addr & 0xffffffffu;
  Obj* o = s.mem.get(id);
  if (!o) memErr(s, addr < 4096 ? "null dereference" : "invalid pointer");
  if (o->freed) memErr(s, "use after free");
  if (o->kind == 'f') memErr(s, "access to code");
  if (o->kind == 'u') throw Unsup{"undefined global variable at " + locLabel(s)};
  if (off + n > o->size) memErr(s, std::string("out of bounds ") + (write ? "write" : "read"));
  if (write) { if (o->ro) memErr(s, "write to constant"); o = s.mem.mut(id); }
  return o;
}
// Symbolic address: returns a concrete object and the offset expression.
static Obj* resolveSym(State& s, Expr* a, uint64_t n, bool write, Expr*& off, uint64_t& base) {
  ensureModel(s);
  uint64_t v = (uint64_t)evalExpr(a, s.model), o0;
  Obj* o = objAt(s, v, n, write, o0);
  base = (v >> 32) << 32;
  off = mkBin(O_SUB, a, mkConst(base, 64));
  Expr* inb = mkBin(O_ULE, off, mkConst(o->size - n, 64));
  if (!isC(inb)) {
    Model m = s.model;
    Res r = solveQuery(s.pc, mkNot(inb), &m);
    if (r != R_UNSAT) {
      StateP nn = cloneState(s);
      addPC(*nn, mkNot(inb));
      if (r == R_SAT) nn->model = m; else nn->modelOk = false;
      work.push_back(std::move(nn));
      addPC(s, inb);
      o = s.mem.get(base >> 32);
      if (write) o = s.mem.mut(base >> 32);
    }
  }
  return o;
}
static uint64_t strideOf(Expr* e, int d = 0) {  // gcd of the variable part (0 = constant)
  auto gcd = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; };
  if (isC(e)) return 0;
  if (d > 20) return 1;
  switch (e->op) {
    case O_ADD: case O_SUB: return gcd(strideOf(e->k[0], d + 1), strideOf(e->k[1], d + 1));
    case O_MUL: if (isC(e->k[1]) && (s128)sextw(e->k[1]->c, e->w) > 0 && (e->k[1]->c >> 32) == 0) return (uint64_t)e->k[1]->c; return 1;
    case O_CONCAT: if (isC(e->k[1]) && e->k[1]->w < 32) return 1ull << e->k[1]->w; return 1;
    case O_ZEXT: return strideOf(e->k[0], d + 1) == 0 ? 0 : 1;
    case O_ITE: {
      if (isC(e->k[1]) && isC(e->k[2])) { uint64_t x = e->k[1]->c, y = e->k[2]->c; return x > y ? x - y : y - x; }
      return 1; }
    default: return 1;
  }
}
// Finite set of values an expression can take, from its constant leaves.
static bool valueSet(Expr* e, std::vector<u128>& out, size_t lim, int depth = 0) {
  if (depth > 40) return false;
  if (isC(e)) { out.push_back(e->c); return true; }
  auto uniq = [&]() { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= lim; };
  switch (e->op) {
    case O_ITE: if (!valueSet(e->k[1], out, lim, depth + 1) || !valueSet(e->k[2], out, lim, depth + 1)) return false; return uniq();
    case O_ADD: case O_SUB: case O_MUL: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR: case O_UDIV: case O_UREM: case O_CONCAT: {
      std::vector<u128> a, b;
      if (!valueSet(e->k[0], a, lim, depth + 1) || !valueSet(e->k[1], b, lim, depth + 1) || a.size() * b.size() > 4 * lim) return false;
      for (auto x : a) for (auto y : b) out.push_back(e->op == O_CONCAT ? ((x << e->k[1]->w) | y) : evalOp(e->op, e->aux, e->w, e->k[0]->w, x, y, 0, e->c));
      return uniq();
    }
    case O_ZEXT: case O_SEXT: case O_EXTRACT: {
      std::vector<u128> a;
      if (!valueSet(e->k[0], a, lim, depth + 1)) return false;
      for (auto x : a) out.push_back(evalOp(e->op, e->aux, e->w, e->k[0]->w, x, 0, 0, e->c));
      return uniq();
    }
    default:
      if (e->w == 1) { out.push_back(0); out.push_back(1); return uniq(); }
      return false;
  }
}
static void candidates(State& s, Expr* off, uint64_t size, uint64_t n, std::vector<uint64_t>& out) {
  uint64_t st = strideOf(off);
  if (st == 0) st = 1;
  uint64_t v = (uint64_t)evalExpr(off, s.model);
  // is the offset determined by the path?
  if (solveQuery(s.pc, mkNot(mkBin(O_EQ, off, mkConst(v, 64))), nullptr) == R_UNSAT) { out.push_back(v); return; }
  { std::vector<u128> vs; if (valueSet(off, vs, 256)) { for (auto x : vs) if ((uint64_t)x + n <= size && (uint64_t)x + n >= n) out.push_back((uint64_t)x); if (!out.empty()) return; } }
  // multiplication by a non power of two may wrap modulo 2^64; offsets are
  // bounded by the object size, and the index by the in-bounds constraint, so a
  // residue check against the model is only trusted for power-of-two strides or
  // confirmed by the solver.
  if (st & (st - 1)) {
    Expr* ok = mkBin(O_EQ, mkBin(O_UREM, off, mkConst(st, 64)), mkConst(v % st, 64));
    if (solveQuery(s.pc, mkNot(ok), nullptr) != R_UNSAT) { uint64_t p = st & (~st + 1); st = p; }
  }
  for (uint64_t c = v % st; c + n <= size; c += st) out.push_back(c);
}
static Expr* muxTree(Obj* o, const std::vector<uint64_t>& c, size_t lo, size_t hi, Expr* off, unsigned nb) {
  if (hi - lo == 1) { SV v = o->load(c[lo], nb); return toE(v, nb * 8); }
  size_t mid = (lo + hi) / 2;
  Expr* l = muxTree(o, c, lo, mid, off, nb);
  Expr* r = muxTree(o, c, mid, hi, off, nb);
  if (l == r) return l;
  return mkIte(mkBin(O_ULT, off, mkConst(c[mid], off->w)), l, r);
}
// narrow an offset expression so comparisons stay small
static Expr* narrowOff(Expr* off, uint64_t size) { unsigned b = 1; while ((size >> b) && b < 63) b++; return mkExtract(off, 0, b); }

static SV truncTo(SV v, unsigned from, unsigned to) {
  if (from == to) return v;
  if (!v.e) { v.c &= m64(to); return v; }
  return fromE(mkExtract(v.e, 0, to));
}
static SV loadScalar(State& s, const SV& a, unsigned bits) {
  unsigned nb = (bits + 7) / 8;
  if (!a.e) {
    uint64_t off; Obj* o = objAt(s, a.c, nb, false, off);
    if (s.th.size() > 1) raceCheck(s, a.c, nb, false);
    return truncTo(o->load(off, nb), nb * 8, bits);
  }
  Expr* off; uint64_t base;
  Obj* o = resolveSym(s, a.e, nb, false, off, base);
  if (isC(off)) return truncTo(o->load((uint64_t)off->c, nb), nb * 8, bits);
  std::vector<uint64_t> c;
  candidates(s, off, o->size, nb, c);
  if (c.size() > 300000) { uint64_t v = concretize(s, a, 64); return truncTo(o->load(v & 0xffffffffu, nb), nb * 8, bits); }
  return truncTo(fromE(muxTree(o, c, 0, c.size(), narrowOff(off, o->size), nb)), nb * 8, bits);
}
static SV zextV(SV v, unsigned from, unsigned to) { if (from == to || !v.e) return v; return fromE(mkZext(v.e, to)); }
static void storeScalar(State& s, const SV& a, SV v, unsigned bits) {
  unsigned nb = (bits + 7) / 8;
  v = zextV(v, bits, nb * 8);
  if (!a.e) {
    uint64_t off; Obj* o = objAt(s, a.c, nb, true, off);
    if (s.th.size() > 1) {
      // as ThreadSanitizer: a destructor re-storing the vtable pointer already there is not a racing write
      bool vptr = false;
      if (nb == 8 && !v.e && (v.c >> 32)) {
        SV old = o->load(off, nb);
        if (!old.e && old.c == v.c) { Obj* t = s.mem.get(v.c >> 32); vptr = t && t->ro; }
      }
      if (!vptr) raceCheck(s, a.c, nb, true);
    }
    o->store(off, v, nb); return;
  }
  Expr* off; uint64_t base;
  Obj* o = resolveSym(s, a.e, nb, true, off, base);
  if (isC(off)) { o->store((uint64_t)off->c, v, nb); return; }
  std::vector<uint64_t> c;
  candidates(s, off, o->size, nb, c);
  if (c.size() > gConcretizeLimit) { uint64_t x = concretize(s, a, 64); o->store(x & 0xffffffffu, v, nb); return; }
  if (c.size() == 1) { o->store(c[0], v, nb); return; }
  Expr* ve = toE(v, nb * 8);
  Expr* no = narrowOff(off, o->size);
  for (uint64_t k : c) {
    Expr* old = toE(o->load(k, nb), nb * 8);
    o->store(k, fromE(mkIte(mkBin(O_EQ, no, mkConst(k, no->w)), ve, old)), nb);
  }
}
static uint64_t newObj(State& s, uint64_t size, char kind, uint8_t fill) {
  if (size > (1ull << 31)) memErr(s, "huge allocation");
  auto o = std::make_shared<Obj>();
  o->size = size; o->kind = kind; o->d.assign(size + 8, fill);
  return s.mem.add(o) << 32;
}
static std::string readStr(State& s, const SV& p) {
  std::string r;
  uint64_t a = concretize(s, p, 64);
  for (;;) { SV c = loadScalar(s, cst(a++), 8); if (c.e) { r += "?"; continue; } if (!c.c) break; r += (char)c.c; if (r.size() > 1000) break; }
  return r;
}
static void copyMem(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  uint64_t so, dof;
  Obj* a = objAt(s, src, n, false, so);
  Obj* b = objAt(s, d, n, true, dof);
  a = s.mem.get(src >> 32);
  if (s.th.size() > 1) { raceCheck(s, src, n, false); raceCheck(s, d, n, true); }
  if (!a->rangeSym(so, n)) { b->clearSym(dof, n); memmove(&b->d[dof], &a->d[so], n); return; }
  std::vector<SymByte> t(n);
  std::vector<uint8_t> t2(n);
  for (uint64_t i = 0; i < n; i++) { SymByte* x = a->at(so + i); t[i] = x ? *x : SymByte{nullptr, 0}; t2[i] = a->d[so + i]; }
  b->clearSym(dof, n);
  for (uint64_t i = 0; i < n; i++) { if (t[i].e) b->setSym(dof + i, t[i].e, t[i].i); else b->d[dof + i] = t2[i]; }
}

// ---------------------------------------------------------------- threads
static void runnable(State& s, std::vector<int>& out, int except) {
  for (int i = 0; i < (int)s.th.size(); i++) {
    if (i == except) continue;
    Thread& t = s.th[i];
    switch (t.s) {
      case T_RUN: out.push_back(i); break;
      case T_LOCK: if (s.mtx[t.obj].owner < 0) out.push_back(i); break;
      case T_WAIT: if (s.mtx[t.obj].owner < 0 && s.mtx[t.obj].ver > t.ver) out.push_back(i); break;
      case T_TWAIT: if (s.mtx[t.obj].owner < 0 && (s.mtx[t.obj].ver > t.ver || s.timeouts < 2)) out.push_back(i); break;
      case T_JOIN: if (s.th[t.obj].s == T_DONE) out.push_back(i); break;
      case T_DONE: break;
    }
  }
  // time passes when nothing else can happen
  if (out.empty() && except < 0) for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].s == T_TWAIT && s.mtx[s.th[i].obj].owner < 0) out.push_back(i);
}
static void switchTo(State& s, int t) {
  s.cur = t;
  if (s.th[t].s != T_RUN) s.th[t].resumed = true;
  if (s.th[t].s == T_TWAIT && s.mtx[s.th[t].obj].ver <= s.th[t].ver) s.timeouts++;
  s.th[t].s = T_RUN;
}
// The current thread cannot continue; pick others.
static void reschedule(State& s) {
  std::vector<int> r;
  if (s.th[0].s == T_DONE) throw PathEnd{"done"};
  runnable(s, r, -1);
  if (r.empty()) {
    std::string d = "deadlock:";
    for (size_t i = 0; i < s.th.size(); i++) d += s.th[i].s == T_DONE ? " done" : s.th[i].s == T_LOCK ? " lock" : s.th[i].s == T_JOIN ? " join" : " wait";
    failPath(s, "deadlock", d);
  }
  for (size_t i = 1; i < r.size(); i++) { StateP n = cloneState(s); n->sched.push_back(r[i]); switchTo(*n, r[i]); work.push_back(std::move(n)); }
  s.sched.push_back(r[0]);
  switchTo(s, r[0]);
}
// returns true if the current thread goes on
static void schedPoint(State& s) {
  std::vector<int> r;
  runnable(s, r, s.cur);
  if (r.empty()) return;
  if (s.preempt < gMaxPreempt)
    for (int o : r) { StateP n = cloneState(s); n->preempt++; n->sched.push_back(o); n->th[n->cur].resumed = true; switchTo(*n, o); work.push_back(std::move(n)); }
  s.sched.push_back(s.cur);
}

// ---------------------------------------------------------------- calls
struct Ctx { State& s; const Ins& x; std::vector<SV> a; std::vector<SV> ret; };
enum HR { H_DONE, H_RETRY };   // H_RETRY: current thread changed, do not advance
typedef std::function<HR(Ctx&)> HandlerFn;
static std::vector<std::pair<std::string, HandlerFn>> handlers;
static std::unordered_map<std::string, int> handlerIx;
static void H(const char* n, HandlerFn f) { handlerIx[n] = handlers.size(); handlers.push_back({n, f}); }

static Expr* newInput(State& s, const std::string& name, unsigned w, char kind, u128 init, u128 rlo = 0, u128 rhi = 0, bool ranged = false) {
  // the k-th input of a path reuses the variable of the k-th input of other
  // paths when name and type agree (keeps the query cache effective)
  static std::map<std::tuple<size_t, std::string, unsigned, char, u128, u128, bool>, Expr*> pool;
  auto key = std::make_tuple(s.inputs.size(), name, w, kind, rlo, rhi, ranged);
  Expr*& e = pool[key];
  if (!e) {
    e = mkVar(name, w, kind);
    if (ranged) {
      VarInfo& v = gVars[(uint32_t)e->c];
      auto fv = [&](u128 x) { return w == 32 ? (double)bits2f((uint32_t)x) : bits2d((uint64_t)x); };
      v.lo = kind == 'f' ? fv(rlo) : (double)sextw(rlo, w); v.hi = kind == 'f' ? fv(rhi) : (double)sextw(rhi, w);
      v.ranged = std::fabs(v.lo) < 4e15 && std::fabs(v.hi) < 4e15;
      if (kind == 'f') v.ranged = std::isfinite(v.lo) && std::isfinite(v.hi);
    }
  }
  s.inputs.push_back((uint32_t)e->c);
  s.model.set((uint32_t)e->c, init);
  return e;
}
static SV ufCall(State& s, int fn, const SV& a, const SV* b, unsigned w) {
  Expr* ae = toE(a, w); Expr* be = b ? toE(*b, w) : nullptr;
  size_t n0 = gUFs.size();
  Expr* e = mkUF(fn, ae, be, w);
  (void)n0;
  if (e->op == O_UF && s.modelOk) {
    bool fresh = true;
    for (Expr* p : s.pc) for (auto v : *p->vars) if (v == ufVar(e)) fresh = false;
    if (fresh) s.model.set(ufVar(e), evalOp(O_UF, 0, w, w, evalExpr(ae, s.model), be ? evalExpr(be, s.model) : 0, 0, fn));
  }
  return fromE(e);
}
static SV f1(Op op, const SV& a, unsigned w, uint8_t aux = 0) { if (!a.e) return cst((uint64_t)evalOp(op, aux, op == O_FNAN ? 1 : w, w, a.c, 0, 0, 0)); return fromE(mkF1(op, a.e, aux)); }
static SV f2i(const SV& a, unsigned kw, unsigned w, uint8_t rm) { if (!a.e) return cst((uint64_t)evalOp(O_F2SI, rm, w, kw, a.c, 0, 0, 0)); return fromE(mkF2I(O_F2SI, a.e, w, rm)); }
static SV b2(Op op, const SV& a, const SV& b, unsigned kw) {
  if (!a.e && !b.e) { bool cmp = op == O_EQ || (op >= O_ULT && op <= O_SLE) || op == O_FEQ || op == O_FLT || op == O_FLE; return cst((uint64_t)evalOp(op, 0, cmp ? 1 : kw, kw, a.c, b.c, 0, 0)); }
  return fromE(mkBin(op, toE(a, kw), toE(b, kw)));
}
static SV ite(const SV& c, const SV& a, const SV& b, unsigned w) { if (!c.e) return c.c ? a : b; return fromE(mkIte(c.e, toE(a, w), toE(b, w))); }

static void doAssert(State& s, const SV& c, const std::string& label) {
  assertHits[label]++;
  if (!c.e) { if (!c.c) failPath(s, "assert", label); assertProved[label]++; return; }
  if (violLabels.count("assert:" + label)) { assume(s, c.e); return; }
  Model m = s.model;
  Expr* nc = mkNot(c.e);
  Res r;
  if (s.modelOk && !evalExpr(c.e, s.model)) r = R_SAT;
  else r = solveQuery(s.pc, nc, &m);
  if (r == R_UNSAT) { assertProved[label]++; return; }
  if (r == R_UNKNOWN) { incomplete.insert("unknown: " + label); assume(s, c.e); return; }
  if (!s.modelOk) { std::vector<Expr*> p2 = s.pc; p2.push_back(nc); if (solveQuery(p2, mkConst(1, 1), &m) == R_UNKNOWN) { incomplete.insert("unknown: " + label); assume(s, c.e); return; } }
  addViolation(s, "assert", label, m);
  assume(s, c.e);
}

static void regIntInput(const char* n, unsigned w, char kind) { H(n, [w, kind](Ctx& c) { c.ret = {fromE(newInput(c.s, readStr(c.s, c.a[0]), w, kind, 0))}; return H_DONE; }); }
static void regUF(const char* n, int fn, int args) {
  H(n, [fn, args](Ctx& c) { c.ret = {ufCall(c.s, fn, c.a[0], args == 2 ? &c.a[1] : nullptr, c.x.w)}; return H_DONE; });
  std::string f = std::string(n) + "f";
  H(strdup(f.c_str()), [fn, args](Ctx& c) { c.ret = {ufCall(c.s, fn, c.a[0], args == 2 ? &c.a[1] : nullptr, c.x.w)}; return H_DONE; });
}
static void regRound(const char* n, RM rm) {
  for (const char* suf : {"", "f"}) { std::string f = std::string(n) + suf; H(strdup(f.c_str()), [rm](Ctx& c) { c.ret = {f1(O_FRND, c.a[0], c.x.w, rm)}; return H_DONE; }); }
}
static void regHandlers() {
  regIntInput("symx_i32", 32, 'i'); regIntInput("symx_u32", 32, 'i'); regIntInput("symx_i64", 64, 'i'); regIntInput("symx_u64", 64, 'i');
  regIntInput("symx_u8", 8, 'i'); regIntInput("symx_u16", 16, 'i'); regIntInput("symx_bool", 1, 'i'); regIntInput("symx_f32", 32, 'f'); regIntInput("symx_f64", 64, 'f');
  auto rangeI = [](unsigned w) { return [w](Ctx& c) {
    std::string n = readStr(c.s, c.a[0]);
    u128 lo = c.a[1].c & m64(w), hi = c.a[2].c & m64(w);
    Expr* e;
    if (gPins.count(n)) { lo = hi = (u128)gPins[n] & maskw(w); }
    e = newInput(c.s, n, w, 'i', lo, lo, hi, true);
    assume(c.s, mkBin(O_SLE, mkConst(lo, w), e));
    assume(c.s, mkBin(O_SLE, e, mkConst(hi, w)));
    c.ret = {fromE(lo == hi ? mkConst(lo, w) : e)};
    return H_DONE; }; };
  H("symx_range", rangeI(64)); H("symx_irange", rangeI(32));
  auto rangeF = [](unsigned w) { return [w](Ctx& c) {
    std::string n = readStr(c.s, c.a[0]);
    Expr* lo = toE(c.a[1], w); Expr* hi = toE(c.a[2], w);
    Expr* e = newInput(c.s, n, w, 'f', lo->c, lo->c, hi->c, isC(lo) && isC(hi));
    assume(c.s, mkCmpRaw(O_FLE, lo, e));
    assume(c.s, mkCmpRaw(O_FLE, e, hi));
    c.ret = {fromE(e)};
    return H_DONE; }; };
  H("symx_f32_range", rangeF(32)); H("symx_f64_range", rangeF(64));
  H("symx_choose", [](Ctx& c) {
    State& s = c.s;
    std::string n = readStr(s, c.a[0]);
    int k = (int)c.a[1].c;
    Expr* e = newInput(s, n, 32, 'i', 0);
    int lo = 0, hi = k;
    if (gPins.count(n)) { lo = (int)gPins[n]; hi = lo + 1; if (lo >= k) throw PathEnd{"pin"}; }
    for (int i = hi - 1; i > lo; i--) {
      StateP nn = cloneState(s);
      addPC(*nn, mkBin(O_EQ, e, mkConst(i, 32)));
      nn->model.set((uint32_t)e->c, i);
      Frame& f = nn->fr();
      if (c.x.dst >= 0) f.r[c.x.dst] = cst(i);
      f.idx++;
      work.push_back(std::move(nn));
    }
    addPC(s, mkBin(O_EQ, e, mkConst(lo, 32)));
    s.model.set((uint32_t)e->c, lo);
    c.ret = {cst(lo)};
    return H_DONE; });
  H("symx_assume", [](Ctx& c) { if (!c.a[0].e) { if (!c.a[0].c) { gPathsKilledByAssume++; throw PathEnd{"assume"}; } } else assume(c.s, c.a[0].e); return H_DONE; });
  H("symx_assert", [](Ctx& c) { doAssert(c.s, c.a[0], readStr(c.s, c.a[1])); return H_DONE; });
  H("symx_reach", [](Ctx& c) { reachHits[readStr(c.s, c.a[0])]++; return H_DONE; });
  H("symx_observe", [](Ctx& c) { c.s.obs.push_back({readStr(c.s, c.a[0]), toE(c.a[1], 64)}); return H_DONE; });
  H("symx_is_symbolic", [](Ctx& c) { c.ret = {cst(1)}; return H_DONE; });
  H("symx_is_real", [](Ctx& c) { c.ret = {cst(gRealMode)}; return H_DONE; });
  H("symx_concretize", [](Ctx& c) { c.ret = {cst(concretize(c.s, c.a[0], 64))}; return H_DONE; });
  H("symx_check_failed", [](Ctx& c) { failPath(c.s, "check", "CHECK failed: " + readStr(c.s, c.a[0])); return H_DONE; });
  H("symx_expect_crash_begin", [](Ctx& c) { c.s.crashOk = 1; return H_DONE; });
  H("symx_expect_crash_end", [](Ctx& c) { c.s.crashOk = 0; failPath(c.s, "assert", readStr(c.s, c.a[0])); return H_DONE; });
  H("symx_crash_ok", [](Ctx& c) { c.s.crashOk = (int)c.a[0].c; return H_DONE; });
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "exit", "_exit", "__assert_fail", "quick_exit", "__stack_chk_fail"})
    H(n, [n](Ctx& c) { failPath(c.s, "abort", std::string(n) + " called at " + locLabel(c.s)); return H_DONE; });
  H("symx_malloc", [](Ctx& c) { uint64_t n = concretize(c.s, c.a[0], 64); c.ret = {cst(newObj(c.s, n, 'h', 0xCD))}; return H_DONE; });
  H("symx_calloc", [](Ctx& c) { uint64_t n = concretize(c.s, c.a[0], 64); c.ret = {cst(newObj(c.s, n, 'h', 0))}; return H_DONE; });
  H("symx_free", [](Ctx& c) {
    uint64_t p = concretize(c.s, c.a[0], 64);
    if (!p) return H_DONE;
    Obj* o = c.s.mem.get(p >> 32);
    if (!o || (p & 0xffffffffu) || o->kind != 'h') memErr(c.s, "bad free");
    if (o->freed) memErr(c.s, "double free");
    if (c.s.th.size() > 1) raceCheck(c.s, p, std::min<uint64_t>(o->size, 64), true);
    o = c.s.mem.mut(p >> 32);
    o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->sym.clear();
    return H_DONE; });
  H("symx_objsize", [](Ctx& c) { uint64_t p = concretize(c.s, c.a[0], 64); Obj* o = c.s.mem.get(p >> 32); c.ret = {cst(o ? o->size : 0)}; return H_DONE; });
  H("symx_print", [](Ctx& c) { fprintf(stderr, "[symx] %s %llx %s\n", readStr(c.s, c.a[0]).c_str(), (unsigned long long)c.a[1].c, c.a[1].e ? exprStr(c.a[1].e, 6).c_str() : ""); return H_DONE; });
  // threads
  H("symx_mutex_lock", [](Ctx& c) {
    State& s = c.s; Thread& t = s.th[s.cur];
    uint64_t m = c.a[0].c;
    if (!t.resumed) schedPoint(s);
    Thread& t2 = s.th[s.cur];
    t2.resumed = false;
    Mtx& mx = s.mtx[m];
    if (mx.owner == s.cur) failPath(s, "deadlock", "mutex locked twice by one thread");
    if (mx.owner < 0) { mx.owner = s.cur; vcJoin(t2.vc, mx.vc); return H_DONE; }
    t2.s = T_LOCK; t2.obj = m;
    reschedule(s);
    return H_RETRY; });
  H("symx_mutex_unlock", [](Ctx& c) {
    State& s = c.s; Mtx& mx = s.mtx[c.a[0].c];
    if (mx.owner != s.cur) failPath(s, "deadlock", "unlock of a mutex not held");
    mx.owner = -1; mx.ver++; mx.vc = s.th[s.cur].vc; vcInc(s.th[s.cur], s.cur);
    return H_DONE; });
  H("symx_mutex_held", [](Ctx& c) { c.ret = {cst(c.s.mtx[c.a[0].c].owner == c.s.cur)}; return H_DONE; });
  auto await = [](bool timed) { return [timed](Ctx& c) {
    State& s = c.s; Thread& t = s.th[s.cur]; uint64_t m = c.a[0].c; Mtx& mx = s.mtx[m];
    if (t.resumed) {
      t.resumed = false;
      bool to = timed && mx.ver <= t.ver;
      mx.owner = s.cur; vcJoin(t.vc, mx.vc);
      if (timed) c.ret = {cst(to)};
      return H_DONE;
    }
    if (mx.owner != s.cur) failPath(s, "deadlock", "await without holding the mutex");
    mx.owner = -1; mx.vc = t.vc; vcInc(t, s.cur); if (c.a[1].c) mx.ver++;
    t.s = timed ? T_TWAIT : T_WAIT; t.obj = m; t.ver = mx.ver;
    reschedule(s);
    return H_RETRY; }; };
  H("symx_await", await(false)); H("symx_await_timed", await(true));
  H("symx_thread_create", [](Ctx& c) {
    State& s = c.s;
    Function* F = addrFn.at(c.a[0].c);
    Thread t; FuncInfo* fi = getInfo(F);
    Frame f; f.f = fi; f.r.resize(fi->nslots); f.r[fi->args[0].first] = c.a[1];
    t.st.push_back(std::move(f));
    int id = s.th.size();
    t.vc = s.th[s.cur].vc;
    vcInc(s.th[s.cur], s.cur);  // what the parent does from now on is unordered
    s.th.push_back(std::move(t));
    vcInc(s.th[id], id);
    c.ret = {cst(id)};
    return H_DONE; });
  H("symx_thread_join", [](Ctx& c) {
    State& s = c.s; uint64_t id = c.a[0].c;
    if (id >= s.th.size()) failPath(s, "deadlock", "join of unknown thread");
    if (s.th[id].s == T_DONE) { s.th[s.cur].resumed = false; vcJoin(s.th[s.cur].vc, s.th[id].vc); return H_DONE; }
    s.th[s.cur].s = T_JOIN; s.th[s.cur].obj = id;
    reschedule(s);
    return H_RETRY; });
  H("symx_thread_self", [](Ctx& c) { c.ret = {cst(c.s.cur)}; return H_DONE; });
  H("symx_yield", [](Ctx& c) {
    State& s = c.s; Thread& t = s.th[s.cur];
    if (!t.resumed) schedPoint(s);
    s.th[s.cur].resumed = false;
    return H_DONE; });
  // libc / libm
  regUF("sin", UF_SIN, 1); regUF("cos", UF_COS, 1); regUF("tan", UF_TAN, 1); regUF("atan2", UF_ATAN2, 2); regUF("exp", UF_EXP, 1); regUF("log", UF_LOG, 1); regUF("pow", UF_POW, 2);
  regUF("asin", UF_ASIN, 1); regUF("acos", UF_ACOS, 1); regUF("atan", UF_ATAN, 1); regUF("hypot", UF_HYPOT, 2); regUF("fmod", UF_FMOD, 2); regUF("sinh", UF_SINH, 1); regUF("cosh", UF_COSH, 1); regUF("log2", UF_LOG2, 1); regUF("log10", UF_LOG10, 1); regUF("exp2", UF_EXP2, 1); regUF("cbrt", UF_CBRT, 1); regUF("tanh", UF_TANH, 1);
  regRound("floor", RM_RTN); regRound("ceil", RM_RTP); regRound("trunc", RM_RTZ); regRound("round", RM_RNA); regRound("rint", RM_RNE); regRound("nearbyint", RM_RNE);
  for (const char* n : {"sqrt", "sqrtf"}) H(n, [](Ctx& c) { c.ret = {f1(O_FSQRT, c.a[0], c.x.w)}; return H_DONE; });
  for (const char* n : {"fabs", "fabsf"}) H(n, [](Ctx& c) { c.ret = {f1(O_FABS, c.a[0], c.x.w)}; return H_DONE; });
  for (const char* n : {"lround", "lroundf", "llround", "llroundf"}) H(n, [](Ctx& c) { c.ret = {f2i(c.a[0], c.x.kw, 64, RM_RNA)}; return H_DONE; });
  for (const char* n : {"lrint", "lrintf", "llrint", "llrintf"}) H(n, [](Ctx& c) { c.ret = {f2i(c.a[0], c.x.kw, 64, RM_RNE)}; return H_DONE; });
  H("ldexp", [](Ctx& c) { if (c.a[0].e || c.a[1].e) throw Unsup{"ldexp"}; c.ret = {cst(d2bits(std::ldexp(bits2d(c.a[0].c), (int)c.a[1].c)))}; return H_DONE; });
  for (const char* n : {"__cxa_atexit", "__cxa_thread_atexit", "pthread_once_dummy"}) H(n, [](Ctx& c) { c.ret = {cst(0)}; return H_DONE; });
  H("__cxa_guard_acquire", [](Ctx& c) { SV v = loadScalar(c.s, c.a[0], 8); c.ret = {cst(v.c ? 0 : 1)}; return H_DONE; });
  H("__cxa_guard_release", [](Ctx& c) { storeScalar(c.s, c.a[0], cst(1), 8); return H_DONE; });
  H("__cxa_guard_abort", [](Ctx& c) { return H_DONE; });
}

static HandlerId findHandler(Function* F) {
  std::string n = F->getName().str();
  auto it = handlerIx.find(n);
  if (it != handlerIx.end() && (F->isDeclaration() || n.compare(0, 5, "symx_") == 0)) return it->second;
  return -1;
}

// LLVM intrinsics with register results
static HR intrinsic(Ctx& c, Intrinsic::ID id) {
  State& s = c.s;
  auto& a = c.a;
  unsigned w = c.x.w, kw = c.x.kw;
  unsigned n = c.x.n;
  auto ew1 = [&](std::function<SV(const SV&)> f) { c.ret.resize(n); for (unsigned i = 0; i < n; i++) c.ret[i] = f(a[i]); };
  auto ew2 = [&](std::function<SV(const SV&, const SV&)> f) { c.ret.resize(n); for (unsigned i = 0; i < n; i++) c.ret[i] = f(a[i], a[n + i]); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t l = concretize(s, a[2], 64);
      if (!l) return H_DONE;
      uint64_t d = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
      copyMem(s, d, q, l);
      return H_DONE;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t l = concretize(s, a[2], 64);
      if (!l) return H_DONE;
      uint64_t d = concretize(s, a[0], 64), off;
      Obj* o = objAt(s, d, l, true, off);
      if (s.th.size() > 1) raceCheck(s, d, l, true);
      if (!a[1].e) { o->clearSym(off, l); memset(&o->d[off], (int)a[1].c, l); }
      else for (uint64_t i = 0; i < l; i++) o->store(off + i, a[1], 1);
      return H_DONE;
    }
    case Intrinsic::fabs: ew1([&](const SV& x) { return f1(O_FABS, x, w); }); return H_DONE;
    case Intrinsic::sqrt: ew1([&](const SV& x) { return f1(O_FSQRT, x, w); }); return H_DONE;
    case Intrinsic::floor: ew1([&](const SV& x) { return f1(O_FRND, x, w, RM_RTN); }); return H_DONE;
    case Intrinsic::ceil: ew1([&](const SV& x) { return f1(O_FRND, x, w, RM_RTP); }); return H_DONE;
    case Intrinsic::trunc: ew1([&](const SV& x) { return f1(O_FRND, x, w, RM_RTZ); }); return H_DONE;
    case Intrinsic::round: ew1([&](const SV& x) { return f1(O_FRND, x, w, RM_RNA); }); return H_DONE;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ew1([&](const SV& x) { return f1(O_FRND, x, w, RM_RNE); }); return H_DONE;
    case Intrinsic::lround: case Intrinsic::llround: ew1([&](const SV& x) { return f2i(x, kw, w, RM_RNA); }); return H_DONE;
    case Intrinsic::lrint: case Intrinsic::llrint: ew1([&](const SV& x) { return f2i(x, kw, w, RM_RNE); }); return H_DONE;
    case Intrinsic::fma: case Intrinsic::fmuladd:
      c.ret.resize(n);
      for (unsigned i = 0; i < n; i++) {
        if (id == Intrinsic::fmuladd) c.ret[i] = b2(O_FADD, b2(O_FMUL, a[i], a[n + i], w), a[2 * n + i], w);
        else c.ret[i] = fromE(mkFma(toE(a[i], w), toE(a[n + i], w), toE(a[2 * n + i], w)));
      }
      return H_DONE;
    case Intrinsic::minnum: ew2([&](const SV& x, const SV& y) { SV r = ite(b2(O_FLT, y, x, w), y, x, w); return ite(f1(O_FNAN, x, w), y, r, w); }); return H_DONE;
    case Intrinsic::maxnum: ew2([&](const SV& x, const SV& y) { SV r = ite(b2(O_FLT, x, y, w), y, x, w); return ite(f1(O_FNAN, x, w), y, r, w); }); return H_DONE;
    case Intrinsic::copysign: ew2([&](const SV& x, const SV& y) {
      SV m1 = cst(m64(w - 1)), sb = cst(1ull << (w - 1));
      if (gRealMode) throw Unsup{"copysign in real mode"};
      return b2(O_OR, b2(O_AND, x, m1, w), b2(O_AND, y, sb, w), w); }); return H_DONE;
    case Intrinsic::sin: ew1([&](const SV& x) { return ufCall(s, UF_SIN, x, nullptr, w); }); return H_DONE;
    case Intrinsic::cos: ew1([&](const SV& x) { return ufCall(s, UF_COS, x, nullptr, w); }); return H_DONE;
    case Intrinsic::exp: ew1([&](const SV& x) { return ufCall(s, UF_EXP, x, nullptr, w); }); return H_DONE;
    case Intrinsic::exp2: ew1([&](const SV& x) { return ufCall(s, UF_EXP2, x, nullptr, w); }); return H_DONE;
    case Intrinsic::log: ew1([&](const SV& x) { return ufCall(s, UF_LOG, x, nullptr, w); }); return H_DONE;
    case Intrinsic::log2: ew1([&](const SV& x) { return ufCall(s, UF_LOG2, x, nullptr, w); }); return H_DONE;
    case Intrinsic::log10: ew1([&](const SV& x) { return ufCall(s, UF_LOG10, x, nullptr, w); }); return H_DONE;
    case Intrinsic::pow: ew2([&](const SV& x, const SV& y) { return ufCall(s, UF_POW, x, &y, w); }); return H_DONE;
    case Intrinsic::powi: {
      SV e = a[1]; if (e.e) throw Unsup{"powi"};
      int k = (int)e.c; bool neg = k < 0; if (neg) k = -k;
      SV one = cst(w == 32 ? f2bits(1) : d2bits(1)), r = one;
      for (int i = 0; i < k; i++) r = b2(O_FMUL, r, a[0], w);
      c.ret = {neg ? b2(O_FDIV, one, r, w) : r};
      return H_DONE;
    }
    case Intrinsic::umin: ew2([&](const SV& x, const SV& y) { return ite(b2(O_ULT, x, y, w), x, y, w); }); return H_DONE;
    case Intrinsic::umax: ew2([&](const SV& x, const SV& y) { return ite(b2(O_ULT, x, y, w), y, x, w); }); return H_DONE;
    case Intrinsic::smin: ew2([&](const SV& x, const SV& y) { return ite(b2(O_SLT, x, y, w), x, y, w); }); return H_DONE;
    case Intrinsic::smax: ew2([&](const SV& x, const SV& y) { return ite(b2(O_SLT, x, y, w), y, x, w); }); return H_DONE;
    case Intrinsic::abs: ew1([&](const SV& x) { return ite(b2(O_SLT, x, cst(0), w), b2(O_SUB, cst(0), x, w), x, w); }); return H_DONE;
    case Intrinsic::ctpop: ew1([&](const SV& x) { if (!x.e) return cst(__builtin_popcountll(x.c)); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(x.e, i, 1), w)); return fromE(r); }); return H_DONE;
    case Intrinsic::ctlz: ew1([&](const SV& x) { if (!x.e) return cst(x.c ? __builtin_clzll(x.c) - (64 - w) : w); Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x.e, i, 1), mkConst(w - 1 - i, w), r); return fromE(r); }); return H_DONE;
    case Intrinsic::cttz: ew1([&](const SV& x) { if (!x.e) return cst(x.c ? __builtin_ctzll(x.c) : w); Expr* r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x.e, i, 1), mkConst(i, w), r); return fromE(r); }); return H_DONE;
    case Intrinsic::bswap: ew1([&](const SV& x) { Expr* e = toE(x, w); Expr* r = mkExtract(e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, i * 8, 8)); return fromE(r); }); return H_DONE;
    case Intrinsic::bitreverse: ew1([&](const SV& x) { Expr* e = toE(x, w); Expr* r = mkExtract(e, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(e, i, 1)); return fromE(r); }); return H_DONE;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      c.ret.resize(n);
      for (unsigned i = 0; i < n; i++) {
        if (a[2 * n + i].e) throw Unsup{"fsh symbolic"};
        unsigned k = a[2 * n + i].c % w;
        Expr* x = mkConcat(toE(a[i], w), toE(a[n + i], w));
        if (2 * w > 128) throw Unsup{"fsh wide"};
        c.ret[i] = fromE(mkExtract(x, id == Intrinsic::fshl ? w - k : k, w));
      }
      return H_DONE;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? O_ADD : id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow ? O_MUL : O_SUB;
      unsigned ww = kw, big = std::min(128u, 2 * ww);
      Expr* x = toE(a[0], ww); Expr* y = toE(a[1], ww);
      Expr* r = mkBin(op, x, y);
      Expr* X = sg ? mkSext(x, big) : mkZext(x, big); Expr* Y = sg ? mkSext(y, big) : mkZext(y, big);
      Expr* Rb = mkBin(op, X, Y);
      Expr* rr = sg ? mkSext(r, big) : mkZext(r, big);
      c.ret = {fromE(r), fromE(mkNot(mkBin(O_EQ, Rb, rr)))};
      return H_DONE;
    }
    case Intrinsic::usub_sat: ew2([&](const SV& x, const SV& y) { return ite(b2(O_ULT, x, y, w), cst(0), b2(O_SUB, x, y, w), w); }); return H_DONE;
    case Intrinsic::uadd_sat: ew2([&](const SV& x, const SV& y) { SV r = b2(O_ADD, x, y, w); return ite(b2(O_ULT, r, x, w), cst(m64(w)), r, w); }); return H_DONE;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: case Intrinsic::arithmetic_fence:
      c.ret = {a[0]}; return H_DONE;
    case Intrinsic::is_constant: c.ret = {cst(0)}; return H_DONE;
    case Intrinsic::objectsize: c.ret = {cst(~0ull)}; return H_DONE;
    case Intrinsic::stacksave: c.ret = {cst(0)}; return H_DONE;
    case Intrinsic::invariant_start: c.ret = {cst(0)}; return H_DONE;
    case Intrinsic::trap: case Intrinsic::ubsantrap: failPath(s, "abort", "trap at " + locLabel(s)); return H_DONE;
    case Intrinsic::is_fpclass: {
      unsigned mask = (unsigned)a[1].c;
      if (gRealMode && a[0].e) { bool fin = mask & 0x198; c.ret = {cst(fin ? 1 : 0)}; if ((mask & 0x1f8) != 0x1f8 && (mask & 0x1f8)) throw Unsup{"is_fpclass real"}; return H_DONE; }
      unsigned eb = kw == 32 ? 8 : 11, mb = kw == 32 ? 23 : 52;
      Expr* e = toE(a[0], kw);
      if (e->op >= O_FADD) {  // keep FP terms: express through comparisons
        Expr* inf = mkConst(kw == 32 ? 0x7f800000u : 0x7ff0000000000000ull, kw);
        Expr* nan = mkF1(O_FNAN, e); Expr* ab = mkF1(O_FABS, e);
        Expr* isinf = mkBin(O_FEQ, ab, inf);
        if (mask == 0x1f8) { c.ret = {fromE(mkBin(O_FLT, ab, inf))}; return H_DONE; }
        if (mask == 0x3) { c.ret = {fromE(nan)}; return H_DONE; }
        if (mask == 0x204) { c.ret = {fromE(isinf)}; return H_DONE; }
        if (mask == 0x207) { c.ret = {fromE(mkNot(mkBin(O_FLT, ab, inf)))}; return H_DONE; }
      }
      Expr* ex = mkExtract(e, mb, eb); Expr* mn = mkExtract(e, 0, mb); Expr* sg = mkExtract(e, kw - 1, 1);
      Expr* e0 = mkBin(O_EQ, ex, mkConst(0, eb)); Expr* e1 = mkBin(O_EQ, ex, mkConst(maskw(eb), eb)); Expr* m0 = mkBin(O_EQ, mn, mkConst(0, mb));
      Expr* r = mkConst(0, 1);
      auto add = [&](unsigned bit, Expr* cnd) { if (mask & bit) r = mkBin(O_OR, r, cnd); };
      auto A = [&](Expr* x, Expr* y) { return mkBin(O_AND, x, y); };
      Expr* q = mkExtract(e, mb - 1, 1);
      add(1, A(A(e1, mkNot(m0)), mkNot(q))); add(2, A(e1, q));
      Expr* ng = sg; Expr* ps = mkNot(sg);
      add(4, A(ng, A(e1, m0))); add(8, A(ng, A(mkNot(e0), mkNot(e1)))); add(16, A(ng, A(e0, mkNot(m0)))); add(32, A(ng, A(e0, m0)));
      add(64, A(ps, A(e0, m0))); add(128, A(ps, A(e0, mkNot(m0)))); add(256, A(ps, A(mkNot(e0), mkNot(e1)))); add(512, A(ps, A(e1, m0)));
      c.ret = {fromE(r)};
      return H_DONE;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smin: {
      SV r = a[0];
      for (size_t i = 1; i < a.size(); i++) {
        if (id == Intrinsic::vector_reduce_add) r = b2(O_ADD, r, a[i], w);
        else if (id == Intrinsic::vector_reduce_or) r = b2(O_OR, r, a[i], w);
        else if (id == Intrinsic::vector_reduce_and) r = b2(O_AND, r, a[i], w);
        else if (id == Intrinsic::vector_reduce_xor) r = b2(O_XOR, r, a[i], w);
        else if (id == Intrinsic::vector_reduce_umax) r = ite(b2(O_ULT, r, a[i], w), a[i], r, w);
        else if (id == Intrinsic::vector_reduce_smax) r = ite(b2(O_SLT, r, a[i], w), a[i], r, w);
        else if (id == Intrinsic::vector_reduce_umin) r = ite(b2(O_ULT, r, a[i], w), r, a[i], w);
        else r = ite(b2(O_SLT, r, a[i], w), r, a[i], w);
      }
      c.ret = {r};
      return H_DONE;
    }
    case Intrinsic::fptosi_sat: ew1([&](const SV& x) {
      if (x.e) throw Unsup{"fptosi.sat symbolic"};
      double d = kw == 32 ? bits2f((uint32_t)x.c) : bits2d(x.c); if (d != d) return cst(0);
      double lim = std::ldexp(1.0, w - 1); if (d >= lim) return cst(m64(w - 1)); if (d < -lim) return cst(1ull << (w - 1)); return cst((uint64_t)(int64_t)d & m64(w)); }); return H_DONE;
    default: break;
  }
  throw Unsup{"intrinsic " + Intrinsic::getBaseName(id).str()};
}

static void enter(State& s, Function* F, std::vector<SV>& a, const Ins* x) {
  FuncInfo* fi = getInfo(F);
  Frame f;
  f.f = fi;
  f.r.resize(fi->nslots);
  size_t p = 0;
  for (auto& ar : fi->args) for (unsigned k = 0; k < ar.second; k++) { if (p < a.size()) f.r[ar.first + k] = a[p]; p++; }
  if (x) { f.retDst = x->dst; f.retN = x->dst >= 0 ? x->n : 0; }
  if (s.th[s.cur].st.size() > 2000) failPath(s, "memory", "stack overflow (recursion) in " + fi->name);
  s.th[s.cur].st.push_back(std::move(f));
  Blk& b = fi->b[0];
  if (!b.seen) coverBlock(fi, b);
}

static void gotoBlk(State& s, Frame& f, int b) {
  f.prev = f.blk;
  Blk& bk = f.f->b[b];
  if (!bk.phis.empty()) {
    auto it = bk.phis.find(f.blk);
    if (it != bk.phis.end()) {
      auto& v = it->second;
      if (v.size() == 1) { for (unsigned i = 0; i < v[0].n; i++) { SV t = get(f, v[0].o, i); f.r[v[0].dst + i] = t; } }
      else {
        static std::vector<SV> tmp; tmp.clear();
        for (auto& p : v) for (unsigned i = 0; i < p.n; i++) tmp.push_back(get(f, p.o, i));
        size_t k = 0;
        for (auto& p : v) for (unsigned i = 0; i < p.n; i++) f.r[p.dst + i] = tmp[k++];
      }
    }
  }
  f.blk = b; f.idx = 0;
  if (!bk.seen) coverBlock(f.f, bk);
}

static void popFrame(State& s) {
  auto& st = s.th[s.cur].st;
  for (uint64_t a : st.back().allocas) {
    Obj* o = s.mem.mut(a >> 32);
    o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->sym.clear();
  }
  st.pop_back();
}
static bool fcmpKnown(unsigned pred) { return pred <= 15; }
static SV doFcmp(unsigned p, const SV& a, const SV& b, unsigned w) {
  (void)fcmpKnown;
  auto uno = [&]() { SV x = f1(O_FNAN, a, w), y = f1(O_FNAN, b, w); return b2(O_OR, x, y, 1); };
  auto inv = [&](SV v) { return b2(O_XOR, v, cst(1), 1); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return cst(0);
    case CmpInst::FCMP_TRUE: return cst(1);
    case CmpInst::FCMP_OEQ: return b2(O_FEQ, a, b, w);
    case CmpInst::FCMP_OGT: return b2(O_FLT, b, a, w);
    case CmpInst::FCMP_OGE: return b2(O_FLE, b, a, w);
    case CmpInst::FCMP_OLT: return b2(O_FLT, a, b, w);
    case CmpInst::FCMP_OLE: return b2(O_FLE, a, b, w);
    case CmpInst::FCMP_ONE: return b2(O_AND, inv(b2(O_FEQ, a, b, w)), inv(uno()), 1);
    case CmpInst::FCMP_ORD: return inv(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return b2(O_OR, b2(O_FEQ, a, b, w), uno(), 1);
    case CmpInst::FCMP_UGT: return inv(b2(O_FLE, a, b, w));
    case CmpInst::FCMP_UGE: return inv(b2(O_FLT, a, b, w));
    case CmpInst::FCMP_ULT: return inv(b2(O_FLE, b, a, w));
    case CmpInst::FCMP_ULE: return inv(b2(O_FLT, b, a, w));
    case CmpInst::FCMP_UNE: return inv(b2(O_FEQ, a, b, w));
  }
  throw Unsup{"fcmp"};
}
static SV doIcmp(unsigned p, const SV& a, const SV& b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return b2(O_EQ, a, b, w);
    case CmpInst::ICMP_NE: return b2(O_XOR, b2(O_EQ, a, b, w), cst(1), 1);
    case CmpInst::ICMP_UGT: return b2(O_ULT, b, a, w);
    case CmpInst::ICMP_UGE: return b2(O_ULE, b, a, w);
    case CmpInst::ICMP_ULT: return b2(O_ULT, a, b, w);
    case CmpInst::ICMP_ULE: return b2(O_ULE, a, b, w);
    case CmpInst::ICMP_SGT: return b2(O_SLT, b, a, w);
    case CmpInst::ICMP_SGE: return b2(O_SLE, b, a, w);
    case CmpInst::ICMP_SLT: return b2(O_SLT, a, b, w);
    case CmpInst::ICMP_SLE: return b2(O_SLE, a, b, w);
  }
  throw Unsup{"icmp"};
}
static SV doBin(State& s, unsigned op, const SV& a, const SV& b, unsigned w) {
  switch (op) {
    case Instruction::Add: return b2(O_ADD, a, b, w);
    case Instruction::Sub: return b2(O_SUB, a, b, w);
    case Instruction::Mul: return b2(O_MUL, a, b, w);
    case Instruction::And: return b2(O_AND, a, b, w);
    case Instruction::Or: return b2(O_OR, a, b, w);
    case Instruction::Xor: return b2(O_XOR, a, b, w);
    case Instruction::Shl: return b2(O_SHL, a, b, w);
    case Instruction::LShr: return b2(O_LSHR, a, b, w);
    case Instruction::AShr: return b2(O_ASHR, a, b, w);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Expr* z = toE(b2(O_EQ, b, cst(0), w), 1);
      bool isz = forkOn(s, z, [](State&, bool) {});
      if (isz) failPath(s, "memory", "integer division by zero at " + locLabel(s));
      return b2(op == Instruction::UDiv ? O_UDIV : op == Instruction::SDiv ? O_SDIV : op == Instruction::URem ? O_UREM : O_SREM, a, b, w);
    }
  }
  throw Unsup{"binop"};
}
static SV doFBin(State& s, unsigned op, const SV& a, const SV& b, unsigned w) {
  switch (op) {
    case Instruction::FAdd: return b2(O_FADD, a, b, w);
    case Instruction::FSub: return b2(O_FSUB, a, b, w);
    case Instruction::FMul: return b2(O_FMUL, a, b, w);
    case Instruction::FDiv: return b2(O_FDIV, a, b, w);
    case Instruction::FRem: return ufCall(s, UF_FMOD, a, &b, w);
  }
  throw Unsup{"fbinop"};
}

static void step(State& s) {
  Frame& f = s.fr();
  Blk& bk = f.f->b[f.blk];
  Ins& x = bk.ins[f.idx];
  gSteps++; s.steps++;
  if (gTrace) { std::string t; raw_string_ostream os(t); x.I->print(os); fprintf(stderr, "%s: %s\n", f.f->name.c_str(), t.c_str()); }
  switch (x.k) {
    case K_BIN: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = doBin(s, x.sub, get(f, x.ops[0], i), get(f, x.ops[1], i), x.w); break;
    case K_FBIN: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = doFBin(s, x.sub, get(f, x.ops[0], i), get(f, x.ops[1], i), x.w); break;
    case K_FNEG: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = f1(O_FNEG, get(f, x.ops[0], i), x.w); break;
    case K_ICMP: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = doIcmp(x.sub, get(f, x.ops[0], i), get(f, x.ops[1], i), x.kw); break;
    case K_FCMP: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = doFcmp(x.sub, get(f, x.ops[0], i), get(f, x.ops[1], i), x.kw); break;
    case K_SELECT: {
      bool ptr = x.I->getType()->isPointerTy();
      if (ptr && get(f, x.ops[0]).e) {
        // selecting between pointers: fork, so addresses stay concrete
        bool v = forkOn(s, get(f, x.ops[0]).e, [](State&, bool) {});
        f.r[x.dst] = get(f, x.ops[v ? 1 : 2]);
        break;
      }
      for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = ite(get(f, x.ops[0], x.sub == 1 ? 0 : i), get(f, x.ops[1], i), get(f, x.ops[2], i), x.aux[i]);
      break;
    }
    case K_BR: gotoBlk(s, f, x.tgt[0]); return;
    case K_CBR: {
      SV c = get(f, x.ops[0]);
      bool v;
      if (!c.e) v = c.c & 1;
      else v = forkOn(s, c.e, [&](State& n, bool side) { gotoBlk(n, n.fr(), x.tgt[side ? 0 : 1]); });
      gotoBlk(s, s.fr(), x.tgt[v ? 0 : 1]);
      return;
    }
    case K_SWITCH: {
      SV c = get(f, x.ops[0]);
      if (c.e) {
        bool done = false;
        for (size_t i = 0; i < x.aux.size() && !done; i++) {
          if (forkOn(s, mkBin(O_EQ, c.e, mkConst(x.aux[i], x.kw)), [](State&, bool) {})) { gotoBlk(s, s.fr(), x.tgt[i + 1]); done = true; }
        }
        if (!done) gotoBlk(s, s.fr(), x.tgt[0]);
        return;
      }
      int t = x.tgt[0];
      for (size_t i = 0; i < x.aux.size(); i++) if (x.aux[i] == c.c) { t = x.tgt[i + 1]; break; }
      gotoBlk(s, f, t);
      return;
    }
    case K_RET: {
      std::vector<SV> rv(x.n);
      for (unsigned i = 0; i < x.n; i++) rv[i] = get(f, x.ops[0], i);
      int d = f.retDst; unsigned n = f.retN;
      popFrame(s);
      auto& st = s.th[s.cur].st;
      if (st.empty()) {
        s.th[s.cur].s = T_DONE;
        if (s.cur == 0) throw PathEnd{"done"};
        vcInc(s.th[s.cur], s.cur);
        reschedule(s);
        return;
      }
      Frame& g = st.back();
      if (d >= 0) for (unsigned i = 0; i < n && i < rv.size(); i++) g.r[d + i] = rv[i];
      Ins& ci = g.f->b[g.blk].ins[g.idx];
      if (!ci.tgt.empty()) gotoBlk(s, g, ci.tgt[0]); else g.idx++;
      return;
    }
    case K_ALLOCA: {
      uint64_t n = concretize(s, get(f, x.ops[0]), x.kw);
      uint64_t a = newObj(s, x.aux[0] * n, 's', 0xCD);
      s.fr().allocas.push_back(a);
      s.fr().r[x.dst] = cst(a);
      break;
    }
    case K_LOAD: {
      SV p = get(f, x.ops[0]);
      unsigned n = x.aux.size() / 2;
      SV tmp[8]; std::vector<SV> big; SV* t = tmp;
      if (n > 8) { big.resize(n); t = big.data(); }
      if (s.th.size() > 1) if (auto* L = dyn_cast<LoadInst>(x.I)) inAtomic = L->isAtomic();
      for (unsigned i = 0; i < n; i++) {
        SV q = p;
        if (x.aux[2 * i]) q = b2(O_ADD, p, cst(x.aux[2 * i]), 64);
        try { t[i] = loadScalar(s, q, x.aux[2 * i + 1]); } catch (...) { inAtomic = false; throw; }
      }
      inAtomic = false;
      if (p.e && x.I->getType()->isPointerTy() && t[0].e) { SV v = t[0]; t[0] = cst(concretize(s, v, 64)); }
      Frame& g = s.fr();
      for (unsigned i = 0; i < n; i++) g.r[x.dst + i] = t[i];
      if (s.th.size() > 1) if (auto* L = dyn_cast<LoadInst>(x.I)) if (L->isAtomic() && !p.e) { vcJoin(s.th[s.cur].vc, s.atomVC[p.c]); if (x.w == 64) vcJoin(s.th[s.cur].vc, s.atomVC[p.c + 4]); }
      break;
    }
    case K_STORE: {
      SV p = get(f, x.ops[0]);
      unsigned n = x.aux.size() / 2;
      if (s.th.size() > 1) if (auto* L = dyn_cast<StoreInst>(x.I)) if (L->isAtomic() && !p.e) { vcJoin(s.th[s.cur].vc, s.atomVC[p.c]); s.atomVC[p.c] = s.th[s.cur].vc; vcInc(s.th[s.cur], s.cur); }
      for (unsigned i = 0; i < n; i++) {
        SV q = p;
        if (x.aux[2 * i]) q = b2(O_ADD, p, cst(x.aux[2 * i]), 64);
        try { if (s.th.size() > 1) if (auto* L = dyn_cast<StoreInst>(x.I)) inAtomic = L->isAtomic(); storeScalar(s, q, get(f, x.ops[1], i), x.aux[2 * i + 1]); } catch (...) { inAtomic = false; throw; }
      }
      inAtomic = false;
      break;
    }
    case K_GEP: {
      SV r = get(f, x.ops[0]);
      if (x.aux[0]) r = b2(O_ADD, r, cst(x.aux[0]), 64);
      for (size_t i = 1; i < x.ops.size(); i++) {
        SV ix = get(f, x.ops[i]);
        unsigned iw = x.aux[2 * i];
        if (iw < 64) { if (!ix.e) ix.c = (uint64_t)(int64_t)sextw(ix.c, iw); else ix = fromE(mkSext(ix.e, 64)); }
        r = b2(O_ADD, r, b2(O_MUL, ix, cst(x.aux[2 * i - 1]), 64), 64);
      }
      f.r[x.dst] = r;
      break;
    }
    case K_CAST: {
      if (x.sub == Instruction::BitCast) {
        unsigned sn = x.aux[0];
        Expr* e = toE(get(f, x.ops[0], 0), x.kw);
        for (unsigned i = 1; i < sn; i++) e = mkConcat(toE(get(f, x.ops[0], i), x.kw), e);
        for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = fromE(mkExtract(e, i * x.w, x.w));
        break;
      }
      for (unsigned i = 0; i < x.n; i++) {
        const SV& a = get(f, x.ops[0], i);
        SV r;
        unsigned w = x.w, kw = x.kw;
        switch (x.sub) {
          case Instruction::Trunc: r = (!a.e && kw <= 64) ? cst(a.c & m64(w)) : fromE(mkExtract(toE(a, kw), 0, w)); break;
          case Instruction::ZExt: r = (!a.e && w <= 64) ? a : fromE(mkZext(toE(a, kw), w)); break;
          case Instruction::SExt: r = (!a.e && w <= 64) ? cst((uint64_t)(int64_t)sextw(a.c, kw) & m64(w)) : fromE(mkSext(toE(a, kw), w)); break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            if (w == kw) r = a; else if (w < kw) r = fromE(mkExtract(toE(a, kw), 0, w)); else r = fromE(mkZext(toE(a, kw), w)); break;
          case Instruction::FPExt: case Instruction::FPTrunc: r = fromE(mkF2F(toE(a, kw), w)); break;
          case Instruction::FPToSI: r = fromE(mkF2I(O_F2SI, toE(a, kw), w, RM_RTZ)); break;
          case Instruction::FPToUI:
            // x86-64 code generation for narrow unsigned targets goes through a wider signed conversion
            if (w <= 32) r = fromE(mkExtract(mkF2I(O_F2SI, toE(a, kw), 64, RM_RTZ), 0, w));
            else r = fromE(mkF2I(O_F2UI, toE(a, kw), w, RM_RTZ));
            break;
          case Instruction::SIToFP: r = fromE(mkI2F(O_SI2F, toE(a, kw), w)); break;
          case Instruction::UIToFP: r = fromE(mkI2F(O_UI2F, toE(a, kw), w)); break;
          default: throw Unsup{"cast"};
        }
        f.r[x.dst + i] = r;
      }
      break;
    }
    case K_COPY: for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = get(f, x.ops[0], x.aux[0] + i); break;
    case K_INSERT:
      for (unsigned i = 0; i < x.n; i++) f.r[x.dst + i] = get(f, x.ops[0], i);
      for (unsigned i = 0; i < x.aux[1]; i++) f.r[x.dst + x.aux[0] + i] = get(f, x.ops[1], i);
      break;
    case K_SHUF: for (unsigned i = 0; i < x.n; i++) { uint64_t m = x.aux[i]; f.r[x.dst + i] = m < x.kw ? get(f, x.ops[0], m) : get(f, x.ops[1], m - x.kw); } break;
    case K_UNREACH: failPath(s, "abort", "unreachable executed at " + locLabel(s)); return;
    case K_RMW: {
      SV p = get(f, x.ops[0]), v = get(f, x.ops[1]);
      if (s.th.size() > 1 && !p.e) { vcJoin(s.th[s.cur].vc, s.atomVC[p.c]); s.atomVC[p.c] = s.th[s.cur].vc; vcInc(s.th[s.cur], s.cur); }
      AtomicScope as; SV old = loadScalar(s, p, x.w), nv;
      switch (x.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = b2(O_ADD, old, v, x.w); break;
        case AtomicRMWInst::Sub: nv = b2(O_SUB, old, v, x.w); break;
        case AtomicRMWInst::And: nv = b2(O_AND, old, v, x.w); break;
        case AtomicRMWInst::Or: nv = b2(O_OR, old, v, x.w); break;
        case AtomicRMWInst::Xor: nv = b2(O_XOR, old, v, x.w); break;
        default: throw Unsup{"atomicrmw"};
      }
      storeScalar(s, p, nv, x.w);
      s.fr().r[x.dst] = old;
      break;
    }
    case K_CMPX: {
      SV p = get(f, x.ops[0]), e = get(f, x.ops[1]), v = get(f, x.ops[2]);
      if (s.th.size() > 1 && !p.e) { vcJoin(s.th[s.cur].vc, s.atomVC[p.c]); s.atomVC[p.c] = s.th[s.cur].vc; vcInc(s.th[s.cur], s.cur); }
      AtomicScope as; SV old = loadScalar(s, p, x.w);
      SV eq = b2(O_EQ, old, e, x.w);
      storeScalar(s, p, ite(eq, v, old, x.w), x.w);
      s.fr().r[x.dst] = old; s.fr().r[x.dst + 1] = eq;
      break;
    }
    case K_CALL: {
      Function* F = x.callee;
      if (!F) {
        uint64_t fp = concretize(s, get(f, x.ops[0]), 64);
        auto it = addrFn.find(fp);
        if (it == addrFn.end()) memErr(s, "call through invalid function pointer");
        F = it->second;
      }
      static thread_local int dummy;
      (void)dummy;
      Ctx c{s, x, {}, {}};
      unsigned na = x.aux.size() / 2;
      for (unsigned i = 0; i < na; i++) for (unsigned k = 0; k < x.aux[i]; k++) c.a.push_back(get(f, x.ops[i + 1], k));
      for (unsigned i = 0; i < na; i++) if (x.aux[na + i]) {
        size_t pos = 0; for (unsigned j = 0; j < i; j++) pos += x.aux[j];
        uint64_t src = concretize(s, c.a[pos], 64);
        uint64_t d = newObj(s, x.aux[na + i], 's', 0xCD);
        s.fr().allocas.push_back(d);
        copyMem(s, d, src, x.aux[na + i]);
        c.a[pos] = cst(d);
      }
      int h = x.callee ? x.handler : findHandler(F);
      HR r = H_DONE;
      if (F->isIntrinsic()) r = intrinsic(c, F->getIntrinsicID());
      else if (h >= 0) r = handlers[h].second(c);
      else if (F->isDeclaration()) {
        std::string n = F->getName().str();
        if (n.find("__throw_") != std::string::npos) failPath(s, "abort", "exception " + demangle(n) + " at " + locLabel(s));
        throw Unsup{"external function " + n};
      } else { enter(s, F, c.a, &x); return; }
      if (r == H_RETRY) return;
      Frame& g = s.fr();
      if (x.dst >= 0) for (unsigned i = 0; i < x.n && i < c.ret.size(); i++) g.r[x.dst + i] = c.ret[i];
      if (!x.tgt.empty()) { gotoBlk(s, g, x.tgt[0]); return; }
      break;
    }
    default: { std::string t; raw_string_ostream os(t); x.I->print(os); throw Unsup{"instruction" + t}; }
  }
  s.fr().idx++;
}

// ---------------------------------------------------------------- driver
static void initGlobals(State& s) {
  for (auto& F : *M) { uint64_t a = newObj(s, 1, 'f', 0); fnAddr[&F] = a; addrFn[a] = &F; }
  for (auto& G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
    bool miss = G.isDeclaration() && G.getName().contains("cartographer") && !G.getName().starts_with("_ZTI") && !G.getName().starts_with("_ZTS");
    gvAddr[&G] = newObj(s, sz, miss ? 'u' : 'g', 0);
  }
  for (auto& G : M->globals()) {
    if (!G.hasInitializer() || isa<ConstantAggregateZero>(G.getInitializer()) || isa<UndefValue>(G.getInitializer())) continue;
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t a = gvAddr[&G];
    Obj* o = s.mem.mut(a >> 32);
    std::function<void(const Constant*, uint64_t)> put = [&](const Constant* K, uint64_t off) {
      if (isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) return;
      if (auto* CD = dyn_cast<ConstantDataSequential>(K)) { StringRef r = CD->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
      if (auto* CS = dyn_cast<ConstantStruct>(K)) { auto* L = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) put(CS->getOperand(i), off + L->getElementOffset(i)); return; }
      if (auto* CA = dyn_cast<ConstantArray>(K)) { uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) put(CA->getOperand(i), off + i * es); return; }
      std::vector<SV> v; constVals(K, v);
      auto fl = flat(K->getType());
      for (size_t i = 0; i < v.size(); i++) o->store(off + fl[i].first, v[i], (fl[i].second + 7) / 8);
    };
    try { put(G.getInitializer(), 0); } catch (Unsup& u) { fprintf(stderr, "global %s: %s\n", G.getName().str().c_str(), u.m.c_str()); }
  }
  for (auto& G : M->globals()) if (G.isConstant() && !G.isDeclaration()) s.mem.mut(gvAddr[&G] >> 32)->ro = true;
}

static std::string sampleOf(State& s, const char* why) {
  std::string j = "{\"inputs\":[";
  bool first = true;
  for (uint32_t id : s.inputs) { if (!first) j += ","; first = false; j += "[" + jstr(gVars[id].name) + "," + jstr(hexv(s.model.get(id))) + "]"; }
  j += "],\"obs\":[";
  first = true;
  bool uf = false;
  for (auto& o : s.obs) { if (!first) j += ","; first = false; j += "[" + jstr(o.name) + "," + jstr(hexv(evalExpr(o.e, s.model))) + "]"; }
  for (Expr* e : s.pc) for (auto v : *e->vars) if (gVars[v].internal) uf = true;
  for (auto& o : s.obs) for (auto v : *o.e->vars) if (gVars[v].internal) uf = true;
  j += "],\"sched\":[";
  for (size_t i = 0; i < s.sched.size(); i++) { if (i) j += ","; j += std::to_string(s.sched[i]); }
  j += std::string("],\"uf\":") + (uf ? "true" : "false") + ",\"end\":" + jstr(why) + "}";
  return j;
}

static void runPath(StateP sp) {
  State& s = *sp;
  bool counted = true;
  const char* why = "done";
  try {
    for (;;) {
      for (int i = 0; i < 4096; i++) step(s);
      if (gDeadline > 0 && nowS() > gDeadline) { incomplete.insert("time budget"); counted = false; break; }
    }
  } catch (PathEnd& e) {
    why = e.why;
    if (!strcmp(why, "assume") || !strcmp(why, "infeasible") || !strcmp(why, "pin")) counted = false;
  } catch (Unsup& u) {
    incomplete.insert("unsupported: " + u.m + " at " + locLabel(s));
    if (getenv("SYMX_VERBOSE")) for (auto it = s.th[s.cur].st.rbegin(); it != s.th[s.cur].st.rend(); ++it) fprintf(stderr, "   in %s\n", it->f->name.c_str());
    counted = false;
  } catch (std::string& e) { incomplete.insert("lowering: " + e); counted = false; }
  if (counted) {
    gPaths++;
    // spread the samples over the exploration (powers of two and the first few)
    bool take = sampleJson.size() < gSampleN && (gPaths <= 3 || !(gPaths & (gPaths - 1)) || gPaths % 37 == 0);
    if (take && (s.modelOk || gRealMode)) sampleJson.push_back(sampleOf(s, why));
  }
}

static void runAll() {
  regHandlers();
  StateP init(new State);
  init->th.resize(1);
  init->th[0].vc = {1};
  initGlobals(*init);
  // constructors
  if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> cs;
    for (auto& o : CA->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) {
      std::vector<SV> none;
      init->th[0].s = T_RUN;
      enter(*init, c.second, none, nullptr);
      try { for (;;) step(*init); } catch (PathEnd& e) { if (strcmp(e.why, "done")) throw Unsup{std::string("constructor failed: ") + e.why + " " + c.second->getName().str()}; }
      catch (Unsup& u) { throw Unsup{u.m + " at " + locLabel(*init) + " (static constructor)"}; }
    }
  }
  init->th[0].s = T_RUN;
  Function* F = M->getFunction("symx_main");
  if (!F) throw Unsup{"no symx_main"};
  std::vector<SV> none;
  enter(*init, F, none, nullptr);
  gSteps = 0;
  work.push_back(std::move(init));
  double lastP = nowS();
  while (!work.empty()) {
    if (gMaxPaths && gPaths >= gMaxPaths) { incomplete.insert("path budget"); break; }
    if (gDeadline > 0 && nowS() > gDeadline) { incomplete.insert("time budget"); break; }
    if (gStopFirst && !violations.empty()) break;
    StateP s = std::move(work.back());
    work.pop_back();
    runPath(std::move(s));
    if (getenv("SYMX_PROGRESS") && nowS() - lastP > 5) { lastP = nowS(); fprintf(stderr, "[%.0fs] paths %llu work %zu queries %llu qtime %.1f max %.1f exprs %zu viol %zu steps %llu\n", nowS() - gStart, (unsigned long long)gPaths, work.size(), (unsigned long long)gSS.queries, gSS.time, gSS.maxTime, exprCount(), violations.size(), (unsigned long long)gSteps); }
  }
}

// Facts decided by interval reasoning while expressions were built are put to
// the solver as well.
static uint64_t gFoldsConfirmed = 0;
static void confirmFolds() {
  double t0 = nowS(), budget = gDeadline > 0 ? std::min(20.0, std::max(3.0, 0.1 * (gDeadline - gStart))) : 20.0;
  for (Expr* neg : gFolds) {
    if (nowS() - t0 > budget) break;
    std::vector<Expr*> pc;
    for (auto v : *neg->vars) {
      VarInfo vi = gVars[v];
      if (!vi.ranged) continue;
      Expr* e = nullptr;
      // the variable node of this id
      std::vector<Expr*> st{neg}; std::unordered_set<Expr*> seen;
      while (!st.empty() && !e) { Expr* x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; if (x->op == O_VAR && (uint32_t)x->c == v) e = x; for (auto k : x->k) if (k) st.push_back(k); }
      if (!e) continue;
      auto k = [&](double d) { return vi.kind == 'f' ? mkConst(vi.w == 32 ? (u128)f2bits((float)d) : (u128)d2bits(d), vi.w) : mkConst((u128)(s128)d, vi.w); };
      pc.push_back(mkCmpRaw(vi.kind == 'f' ? O_FLE : O_SLE, k(vi.lo), e)); pc.push_back(mkCmpRaw(vi.kind == 'f' ? O_FLE : O_SLE, e, k(vi.hi)));
    }
    Model m; Res r = solveQuery(pc, neg, &m);
    if (r == R_UNSAT) gFoldsConfirmed++;
    else if (r == R_SAT) incomplete.insert("interval fact refuted by the solver");
  }
}
static std::string report() {
  std::string j = "{\n";
  auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "\"%s\": %.10g,\n", k, v); j += b; };
  num("paths", gPaths); num("paths_cut_by_assume", gPathsKilledByAssume); num("expected_crash_paths", gCrashPaths); num("forks", gForks); num("instructions", gSteps);
  num("interval_facts", gFolds.size()); num("interval_facts_confirmed", gFoldsConfirmed); num("queries", gSS.queries); num("sat", gSS.sat); num("unsat", gSS.unsat); num("unknown", gSS.unknown); num("cache_hits", gSS.cacheHits); num("external", gSS.external); num("relaxed", gSS.relaxed); num("finite", gSS.finite);
  num("solver_s", gSS.time); num("solver_max_s", gSS.maxTime); num("wall_s", nowS() - gStart); num("max_preempt", gMaxPreempt);
  j += std::string("\"real_mode\": ") + (gRealMode ? "true" : "false") + ",\n";
  auto mp = [&](const char* k, std::map<std::string, uint64_t>& m) { j += std::string("\"") + k + "\": {"; bool f = true; for (auto& p : m) { if (!f) j += ","; f = false; j += jstr(p.first) + ":" + std::to_string(p.second); } j += "},\n"; };
  mp("assert_hits", assertHits); mp("assert_proved", assertProved); mp("reach", reachHits);
  auto st = [&](const char* k, std::set<std::string>& m) { j += std::string("\"") + k + "\": ["; bool f = true; for (auto& p : m) { if (!f) j += ","; f = false; j += jstr(p); } j += "],\n"; };
  st("incomplete", incomplete); st("functions", funcsSeen);
  j += "\"samples\": [";
  for (size_t i = 0; i < sampleJson.size(); i++) { if (i) j += ",\n"; j += sampleJson[i]; }
  j += "],\n\"violations\": [";
  for (size_t i = 0; i < violations.size(); i++) {
    auto& v = violations[i];
    if (i) j += ",\n";
    j += "{\"kind\":" + jstr(v.kind) + ",\"label\":" + jstr(v.label) + ",\"where\":" + jstr(v.where) + ",\"inputs\":[";
    for (size_t k = 0; k < v.inputs.size(); k++) { if (k) j += ","; j += "[" + jstr(v.inputs[k].first) + "," + jstr(v.inputs[k].second) + "]"; }
    j += "],\"sched\":[";
    for (size_t k = 0; k < v.sched.size(); k++) { if (k) j += ","; j += std::to_string(v.sched[k]); }
    j += "],\"stack\":[";
    for (size_t k = 0; k < v.stack.size(); k++) { if (k) j += ","; j += jstr(v.stack[k]); }
    j += "]}";
  }
  j += "]\n}";
  return j;
}
