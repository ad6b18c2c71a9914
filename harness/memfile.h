// Stand-ins for file streams: one in-memory file, with the error flags of
// std::basic_ios as the standard library sets them and injected faults (opening
// fails, a write is cut short, the flush at close fails).
#pragma once
#include <fstream>
#include <iomanip>
#include <sstream>
#include <string>
#include <vector>
#include "symx.h"
struct MemFile {
  std::string content; bool exists = false;
  bool fail_open = false, fail_close = false; int writes_left = -1;  // < 0: no fault
};
static MemFile* g_file = new MemFile;
struct MemIos {
  int state = 0;  // 1 eof, 2 fail, 4 bad
  bool good() const { return state == 0; } bool eof() const { return state & 1; } bool fail() const { return state & 6; } bool bad() const { return state & 4; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void setstate(int s) { state |= s; }
  void setstate(std::ios::iostate s) { if (s & std::ios::eofbit) state |= 1; if (s & std::ios::failbit) state |= 2; if (s & std::ios::badbit) state |= 4; }
  void clear() { state = 0; }
};
struct MemOstream : MemIos {
  size_t at = 0; bool open = false;
  bool raw(const char* d, size_t n) {
    if (!open) return false;
    if (g_file->writes_left == 0) return false;
    if (g_file->writes_left > 0) --g_file->writes_left;
    for (size_t i = 0; i < n; ++i, ++at) { if (at < g_file->content.size()) g_file->content[at] = d[i]; else g_file->content.push_back(d[i]); }
    return true;
  }
  MemOstream& write(const char* d, size_t n) { if (!good()) state |= 2; else if (!raw(d, n)) state |= 4; return *this; }
  MemOstream& put(char c) { return write(&c, 1); }
  MemOstream& flush() { return *this; }
  MemOstream& seekp(size_t p) { if (!fail()) at = p; return *this; }
  size_t tellp() { return fail() ? size_t(-1) : at; }
};
struct MemOfstream : MemOstream {
  MemOfstream() {}
  template <typename M> MemOfstream(const std::string&, M) { if (g_file->fail_open) { state |= 2; return; } open = true; g_file->exists = true; g_file->content.clear(); }
  explicit MemOfstream(const std::string& n) : MemOfstream(n, 0) {}
  bool is_open() const { return open; }
  void close() { if (!open || g_file->fail_close) state |= 2; open = false; }
};
struct MemIstream : MemIos {
  size_t at = 0; size_t last = 0;
  int get() { last = 0; if (!good()) { state |= 2; return -1; } if (at >= g_file->content.size()) { state |= 3; return -1; } last = 1; return (unsigned char)g_file->content[at++]; }
  int peek() { if (!good()) return -1; if (at >= g_file->content.size()) { state |= 1; return -1; } return (unsigned char)g_file->content[at]; }
  MemIstream& read(char* d, size_t n) {
    last = 0;
    if (!good()) { state |= 2; return *this; }
    while (last < n && at < g_file->content.size()) d[last++] = g_file->content[at++];
    if (last < n) state |= 3;
    return *this;
  }
  size_t gcount() const { return last; }
};
struct MemIfstream : MemIstream {
  MemIfstream() {}
  template <typename M> MemIfstream(const std::string&, M) { if (!g_file->exists) state |= 2; }
  explicit MemIfstream(const std::string& n) : MemIfstream(n, 0) {}
  bool is_open() const { return g_file->exists; }
  void close() {}
};
// text formatting, for the solver build only
struct MemStringStream {
  std::string s; int width = 0; char fill = ' ';
  MemStringStream& text(const std::string& t) { for (int i = t.size(); i < width; ++i) s.push_back(fill); width = 0; s += t; return *this; }
  MemStringStream& operator<<(const char* t) { return text(t); }
  MemStringStream& operator<<(const std::string& t) { return text(t); }
  MemStringStream& operator<<(char c) { return text(std::string(1, c)); }
  MemStringStream& operator<<(long v) { std::string t; const bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : v; do { t.insert(t.begin(), char('0' + u % 10)); u /= 10; } while (u); if (neg) t.insert(t.begin(), '-'); return text(t); }
  MemStringStream& operator<<(int v) { return *this << long(v); }
  MemStringStream& operator<<(unsigned long v) { return *this << long(v); }
  MemStringStream& operator<<(decltype(std::setw(0)) w) { width = w._M_n; return *this; }
  MemStringStream& operator<<(decltype(std::setfill(' ')) f) { fill = f._M_c; return *this; }
  std::string str() const { return s; }
};
namespace std { using symx_ostream = ::MemOstream; using symx_istream = ::MemIstream; using symx_ofstream = ::MemOfstream; using symx_ifstream = ::MemIfstream; using symx_ostringstream = ::MemStringStream; }
