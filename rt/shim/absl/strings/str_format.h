#pragma once
#include <string>
namespace absl { template <typename... A> std::string StrFormat(const char* f, const A&...) { return f; } template <typename... A> void StrAppendFormat(std::string* o, const char* f, const A&...) { *o += f; } }
