#pragma once
#include "absl/strings/str_cat.h"
namespace absl { template <typename... A> std::string Substitute(const std::string& f, const A&... a) { std::string as[] = {symx_internal::S(a)...}; std::string r; for (size_t i = 0; i < f.size(); i++) { if (f[i] == '$' && i + 1 < f.size() && f[i + 1] >= '0' && f[i + 1] <= '9') { r += as[f[i + 1] - '0']; i++; } else r += f[i]; } return r; } }
