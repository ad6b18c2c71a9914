#pragma once
#include <string>
#include <vector>
namespace absl {
struct SkipEmpty {};
namespace symx_internal { struct Split { std::vector<std::string> v; template <typename C> operator C() const { return C(v.begin(), v.end()); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } }; }
inline symx_internal::Split StrSplit(const std::string& s, char c) { symx_internal::Split r; std::string t; for (char x : s) { if (x == c) { r.v.push_back(t); t.clear(); } else t += x; } r.v.push_back(t); return r; }
inline symx_internal::Split StrSplit(const std::string& s, char c, SkipEmpty) { symx_internal::Split r = StrSplit(s, c), q; for (auto& x : r.v) if (!x.empty()) q.v.push_back(x); return q; }
}
