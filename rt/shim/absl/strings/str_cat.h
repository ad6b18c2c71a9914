#pragma once
#include <string>
#include <type_traits>
namespace absl {
namespace symx_internal {
inline std::string S(const std::string& s) { return s; } inline std::string S(const char* s) { return s; } inline std::string S(char* s) { return s; }
template <typename T> typename std::enable_if<std::is_integral<T>::value, std::string>::type S(T v) { return std::to_string(v); }
template <typename T> typename std::enable_if<std::is_floating_point<T>::value, std::string>::type S(T) { return "<float>"; }
}
template <typename... A> std::string StrCat(const A&... a) { std::string r; ((r += symx_internal::S(a)), ...); return r; }
template <typename... A> void StrAppend(std::string* o, const A&... a) { ((*o += symx_internal::S(a)), ...); }
}
