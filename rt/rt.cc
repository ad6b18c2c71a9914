// Runtime model linked into the solver build: memory management, libc pieces and
// the non-header parts of libstdc++ the code needs.
#include "symx.h"
#include <bits/stl_tree.h>
#include <chrono>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <ios>
#include <list>
#include <new>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>
template class std::__cxx11::basic_string<char>;
extern "C" { void* symx_malloc(uint64_t); void* symx_calloc(uint64_t); void symx_free(void*); uint64_t symx_objsize(void*); }
void* operator new(size_t n) { return symx_malloc(n); }
void* operator new[](size_t n) { return symx_malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return symx_malloc(n); }
void* operator new(size_t n, std::align_val_t) { return symx_malloc(n); }
void* operator new[](size_t n, std::align_val_t) { return symx_malloc(n); }
void operator delete(void* p) noexcept { symx_free(p); }
void operator delete[](void* p) noexcept { symx_free(p); }
void operator delete(void* p, size_t) noexcept { symx_free(p); }
void operator delete[](void* p, size_t) noexcept { symx_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { symx_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { symx_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { symx_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { symx_free(p); }
extern "C" {
__attribute__((noinline)) void* malloc(size_t n) { return symx_malloc(n); }
__attribute__((noinline)) void* calloc(size_t a, size_t b) { return symx_calloc(a * b); }
__attribute__((noinline)) void free(void* p) { symx_free(p); }
void* aligned_alloc(size_t, size_t n) { return symx_malloc(n); }
int posix_memalign(void** p, size_t, size_t n) { *p = symx_malloc(n); return 0; }
void* realloc(void* p, size_t n) { void* q = symx_malloc(n); if (p) { uint64_t o = symx_objsize(p); for (uint64_t i = 0; i < (o < n ? o : n); i++) ((volatile char*)q)[i] = ((volatile char*)p)[i]; symx_free(p); } return q; }
// One difference word instead of byte-wise early exit keeps symbolic compares
// from forking per byte (bcmp only promises zero / non-zero).
int bcmp(const void* a, const void* b, size_t n) { const volatile unsigned char* x = (const volatile unsigned char*)a; const volatile unsigned char* y = (const volatile unsigned char*)b; unsigned d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i]; return d != 0; }
int memcmp(const void* a, const void* b, size_t n) { const volatile unsigned char* x = (const volatile unsigned char*)a; const volatile unsigned char* y = (const volatile unsigned char*)b; for (size_t i = 0; i < n; i++) { int p = x[i], q = y[i]; if (p != q) return p < q ? -1 : 1; } return 0; }
size_t strlen(const char* s) { const volatile char* p = s; size_t n = 0; while (p[n]) n++; return n; }
int strcmp(const char* a, const char* b) { const volatile unsigned char* x = (const volatile unsigned char*)a; const volatile unsigned char* y = (const volatile unsigned char*)b; size_t i = 0; for (;; i++) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; if (!x[i]) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { const volatile unsigned char* x = (const volatile unsigned char*)a; const volatile unsigned char* y = (const volatile unsigned char*)b; for (size_t i = 0; i < n; i++) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; if (!x[i]) return 0; } return 0; }
void* symx_memchr_(const void* a, int c, size_t n) __asm__("memchr");
void* symx_memchr_(const void* a, int c, size_t n) { const volatile unsigned char* x = (const volatile unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
int* __errno_location() { static int e; return &e; }
}
namespace std {
// ---- std::map / std::set nodes: same interface (search-tree
// order is all the containers' semantics depend on).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  // red-black rebalancing
  auto rotate = [&](_Rb_tree_node_base* a, bool to_left) {
    _Rb_tree_node_base* b = to_left ? a->_M_right : a->_M_left;
    _Rb_tree_node_base* c = to_left ? b->_M_left : b->_M_right;
    if (to_left) a->_M_right = c; else a->_M_left = c;
    if (c) c->_M_parent = a;
    b->_M_parent = a->_M_parent;
    if (a == h._M_parent) h._M_parent = b; else if (a == a->_M_parent->_M_left) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
    if (to_left) b->_M_left = a; else b->_M_right = a;
    a->_M_parent = b;
  };
  x->_M_color = _S_red;
  while (x != h._M_parent && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
    const bool l = x->_M_parent == g->_M_left;
    _Rb_tree_node_base* const u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
    if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rotate(x, l); }
    x->_M_parent->_M_color = _S_black; g->_M_color = _S_red;
    rotate(g, !l);
  }
  h._M_parent->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
  if (h._M_right == z) { if (h._M_parent == z && !z->_M_left) h._M_right = &h; else h._M_right = _Rb_tree_decrement(z); }
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else h._M_parent->_M_color = _S_black;  // colours below only matter for balance
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb < 2) return {true, _M_next_bkt(2 * (ne + ni))}; return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  struct R { static void run(void* p) { _State* st = static_cast<_State*>(p); st->_M_run(); delete st; } };
  int id = symx_thread_create(&R::run, s.release());
  _M_id._M_thread = (pthread_t)(id + 1);
}
void thread::join() { symx_thread_join((int)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
thread::_State::~_State() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::seconds(1500000000)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(std::chrono::seconds(1000)); }
} }
}  // namespace std
extern "C" int nice(int) { return 0; }
