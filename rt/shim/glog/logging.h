// Shim of glog for the solver build: CHECK failure = program abort.
#pragma once
#include <ostream>
#include <string>
#include <vector>
#include <sstream>
#include <memory>
#include <utility>
extern "C" [[noreturn]] void symx_check_failed(const char* what);
namespace google {
struct NullStream {
  template <typename T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Fatal { [[noreturn]] explicit Fatal(const char* w) { symx_check_failed(w); } NullStream& stream(); };
struct Voidify { void operator&(NullStream&) {} void operator&(const NullStream&) {} };
template <typename T> T&& CheckNotNull(const char* w, T&& t) { if (t == nullptr) symx_check_failed(w); return std::forward<T>(t); }
inline void InitGoogleLogging(const char*) {}
class LogSink {};
enum { GLOG_INFO, GLOG_WARNING, GLOG_ERROR, GLOG_FATAL };
typedef int LogSeverity;
inline NullStream& nullStream() { static NullStream n; return n; }
}  // namespace google
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define SYMX_FATAL(w) ::google::Voidify() & ::google::Fatal(w).stream()
#define CHECK(c) __builtin_expect(static_cast<bool>(c), true) ? (void)0 : SYMX_FATAL(__FILE__ ":" SYMX_STR(__LINE__) " " #c)
#define CHECK_OP_(a, b, op) (static_cast<bool>((a) op (b))) ? (void)0 : SYMX_FATAL(__FILE__ ":" SYMX_STR(__LINE__) " " #a " " #op " " #b)
#define CHECK_EQ(a, b) CHECK_OP_(a, b, ==)
#define CHECK_NE(a, b) CHECK_OP_(a, b, !=)
#define CHECK_LE(a, b) CHECK_OP_(a, b, <=)
#define CHECK_LT(a, b) CHECK_OP_(a, b, <)
#define CHECK_GE(a, b) CHECK_OP_(a, b, >=)
#define CHECK_GT(a, b) CHECK_OP_(a, b, >)
#define CHECK_NOTNULL(p) ::google::CheckNotNull(__FILE__ ":" SYMX_STR(__LINE__) " " #p " Must be non NULL", (p))
#define CHECK_NEAR(a, b, m) do { CHECK_LE((a), (b) + (m)); CHECK_GE((a), (b) - (m)); } while (0)
#define CHECK_STREQ(a, b) CHECK(strcmp((a), (b)) == 0)
#define SYMX_NOLOG true ? (void)0 : ::google::Voidify() & ::google::nullStream()
#define LOG_INFO_ SYMX_NOLOG
#define LOG_WARNING_ SYMX_NOLOG
#define LOG_ERROR_ SYMX_NOLOG
#define LOG_FATAL_ SYMX_FATAL(__FILE__ ":" SYMX_STR(__LINE__) " LOG(FATAL)")
#define LOG_DFATAL_ SYMX_NOLOG
#define LOG(s) LOG_##s##_
#define LOG_IF(s, c) !(c) ? (void)0 : LOG(s)
#define LOG_EVERY_N(s, n) SYMX_NOLOG
#define LOG_FIRST_N(s, n) SYMX_NOLOG
#define LOG_IF_EVERY_N(s, c, n) SYMX_NOLOG
#define PLOG(s) LOG(s)
#define DLOG(s) SYMX_NOLOG
#define VLOG(n) SYMX_NOLOG
#define VLOG_IS_ON(n) false
#define DLOG_IF(s, c) SYMX_NOLOG
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#define DCHECK_NOTNULL(p) (p)
