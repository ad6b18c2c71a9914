// Native replay runtime: the same harness, compiled by g++ against the real
// dependencies, fed with the values the solver produced.
#include "symx.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
static std::vector<std::pair<std::string, unsigned long long>> in;
static size_t pos;
static std::vector<int> sched;
static size_t spos;
static bool expectCrash = false, lenient = false;
static void out(const char* a, const char* b) { printf("%s %s\n", a, b); fflush(stdout); }
static unsigned long long nxt(const char* name, bool* have) {
  if (pos >= in.size()) { *have = false; return 0; }
  if (in[pos].first != name) { out("DIVERGED", name); _exit(77); }
  *have = true;
  return in[pos++].second;
}
template <typename T> static T val(const char* n) { bool h; unsigned long long v = nxt(n, &h); T t; memcpy(&t, &v, sizeof t); return t; }
extern "C" {
int32_t symx_i32(const char* n) { return val<int32_t>(n); }
uint32_t symx_u32(const char* n) { return val<uint32_t>(n); }
int64_t symx_i64(const char* n) { return val<int64_t>(n); }
uint64_t symx_u64(const char* n) { return val<uint64_t>(n); }
uint8_t symx_u8(const char* n) { return val<uint8_t>(n); }
uint16_t symx_u16(const char* n) { return val<uint16_t>(n); }
bool symx_bool(const char* n) { return val<uint8_t>(n) & 1; }
float symx_f32(const char* n) { return val<float>(n); }
double symx_f64(const char* n) { return val<double>(n); }
int64_t symx_range(const char* n, int64_t lo, int64_t hi) { bool h; int64_t v = (int64_t)nxt(n, &h); if (!h) return lo; if (v < lo || v > hi) { out("ASSUME", n); _exit(78); } return v; }
int32_t symx_irange(const char* n, int32_t lo, int32_t hi) { bool h; int32_t v = (int32_t)nxt(n, &h); if (!h) return lo; if (v < lo || v > hi) { out("ASSUME", n); _exit(78); } return v; }
float symx_f32_range(const char* n, float lo, float hi) { if (pos >= in.size()) return lo; float v = val<float>(n); if (!(v >= lo && v <= hi)) { out("ASSUME", n); _exit(78); } return v; }
double symx_f64_range(const char* n, double lo, double hi) { if (pos >= in.size()) return lo; double v = val<double>(n); if (!(v >= lo && v <= hi)) { out("ASSUME", n); _exit(78); } return v; }
int symx_choose(const char* n, int k) { int v = val<int>(n); if (v < 0 || v >= k) { out("ASSUME", n); _exit(78); } return v; }
void symx_assume(bool c) { if (!c && !lenient) { out("ASSUME", "assume"); _exit(78); } if (!c) _exit(79); }
void symx_assert(bool c, const char* l) { if (!c) { out("ASSERT-FAILED", l); _exit(42); } }
void symx_reach(const char*) {}
void symx_observe(const char* n, uint64_t v) { printf("OBS %s %llx\n", n, (unsigned long long)v); fflush(stdout); }
int symx_is_symbolic() { return 0; }
int symx_is_real() { return lenient; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llx\n", s, (unsigned long long)v); }
void symx_expect_crash_begin(const char*) { expectCrash = true; }
void symx_expect_crash_end(const char* l) { out("ASSERT-FAILED", l); _exit(42); }
void symx_crash_ok(int on) { expectCrash = on; }
void symx_check_failed(const char* w) { out("CHECK-FAILED", w); abort(); }
}
static void onSig(int s) { if (expectCrash) { out("EXPECTED-CRASH", ""); _exit(0); } char b[32]; snprintf(b, 32, "%d", s); out("CRASH signal", b); _exit(43); }

#ifdef SYMX_MT
#include <ucontext.h>
#include <thread>
// Deterministic cooperative scheduler following the recorded schedule; mirrors
// the engine's scheduling points.
enum TS { RUN, LOCK, WAIT, TWAIT, JOIN, DONE };
struct Th { ucontext_t c; TS s = RUN; void* obj = nullptr; uint64_t ver = 0; void (*fn)(void*) = nullptr; void* arg = nullptr; char* stk = nullptr; int join = -1; };
struct Mx { int owner = -1; uint64_t ver = 0; };
static std::vector<Th*> th;
static std::map<void*, Mx> mx;
static int cur = 0, timeouts = 0;
static std::vector<int> runnable(int except) {
  std::vector<int> r;
  for (int i = 0; i < (int)th.size(); i++) {
    if (i == except) continue;
    Th& t = *th[i];
    bool ok = t.s == RUN || (t.s == LOCK && mx[t.obj].owner < 0) || (t.s == WAIT && mx[t.obj].owner < 0 && mx[t.obj].ver > t.ver) || (t.s == TWAIT && mx[t.obj].owner < 0 && (mx[t.obj].ver > t.ver || timeouts < 2)) || (t.s == JOIN && th[t.join]->s == DONE);
    if (ok) r.push_back(i);
  }
  if (r.empty() && except < 0) for (int i = 0; i < (int)th.size(); i++) if (th[i]->s == TWAIT && mx[th[i]->obj].owner < 0) r.push_back(i);
  return r;
}
static void sw(int t) {
  int old = cur;
  if (th[t]->s == TWAIT && mx[th[t]->obj].ver <= th[t]->ver) timeouts++;
  th[t]->s = RUN;
  if (t == old) return;
  cur = t;
  swapcontext(&th[old]->c, &th[t]->c);
}
static int pick(const std::vector<int>& r) {
  if (spos < sched.size()) { int c = sched[spos++]; for (int x : r) if (x == c) return c; out("DIVERGED", "schedule"); _exit(77); }
  return r[0];
}
static void resched() {
  std::vector<int> r = runnable(-1);
  if (r.empty()) { out("DEADLOCK", ""); _exit(44); }
  sw(pick(r));
}
static void schedPoint() {
  std::vector<int> r = runnable(cur);
  if (r.empty()) return;
  r.push_back(cur);
  int c = spos < sched.size() ? pick(r) : cur;
  if (c != cur) sw(c);
}
static void tramp() { Th& t = *th[cur]; t.fn(t.arg); th[cur]->s = DONE; resched(); }
extern "C" {
void symx_mutex_lock(void* m) {
  schedPoint();
  if (mx[m].owner == cur) { out("DEADLOCK", "self"); _exit(44); }
  while (mx[m].owner >= 0) { th[cur]->s = LOCK; th[cur]->obj = m; resched(); }
  mx[m].owner = cur;
}
void symx_mutex_unlock(void* m) { if (mx[m].owner != cur) { out("DEADLOCK", "unlock of mutex not held"); _exit(44); } mx[m].owner = -1; mx[m].ver++; }
bool symx_mutex_held(void* m) { return mx[m].owner == cur; }
static bool await_(void* m, int first, TS k) {
  if (mx[m].owner != cur) { out("DEADLOCK", "await without mutex"); _exit(44); }
  mx[m].owner = -1; if (first) mx[m].ver++;
  Th& t = *th[cur]; t.s = k; t.obj = m; t.ver = mx[m].ver;
  resched();
  bool to = mx[m].ver <= th[cur]->ver;
  mx[m].owner = cur;
  return to;
}
void symx_await(void* m, int f) { await_(m, f, WAIT); }
bool symx_await_timed(void* m, int f) { return await_(m, f, TWAIT); }
int symx_thread_create(void (*fn)(void*), void* a) {
  Th* t = new Th; t->fn = fn; t->arg = a; t->stk = (char*)malloc(1 << 20);
  getcontext(&t->c); t->c.uc_stack.ss_sp = t->stk; t->c.uc_stack.ss_size = 1 << 20; t->c.uc_link = nullptr;
  makecontext(&t->c, tramp, 0);
  th.push_back(t);
  return th.size() - 1;
}
void symx_thread_join(int id) { while (th[id]->s != DONE) { th[cur]->s = JOIN; th[cur]->join = id; resched(); } }
int symx_thread_self() { return cur; }
void symx_yield() { schedPoint(); }
}
namespace std {
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  struct R { static void run(void* p) { _State* st = static_cast<_State*>(p); st->_M_run(); delete st; } };
  int id = symx_thread_create(&R::run, s.release());
  _M_id._M_thread = (pthread_t)(id + 1);
}
void thread::join() { symx_thread_join((int)_M_id._M_thread - 1); _M_id = id(); }
}
#endif

int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k; is >> k;
    if (k == "S") { int x; while (is >> x) sched.push_back(x); }
    else if (k == "LENIENT") lenient = true;
    else if (k == "I") { std::string v, n; is >> v; std::getline(is, n); in.push_back({n.substr(1), std::stoull(v, nullptr, 16)}); }
  }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGTRAP, SIGBUS}) signal(s, onSig);
#ifdef SYMX_MT
  th.push_back(new Th);
#endif
  symx_main();
  out("END", "");
  _exit(0);
}
