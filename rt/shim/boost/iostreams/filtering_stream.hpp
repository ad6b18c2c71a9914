// Shim: gzip modelled as an injective, self-identifying encoding (prefix).
#pragma once
#include <string>
extern "C" [[noreturn]] void symx_check_failed(const char* what);
namespace boost { namespace iostreams {
namespace zlib { enum { best_speed = 1, best_compression = 9, default_compression = -1 }; }
struct gzip_params { gzip_params(int = 0) {} };
struct gzip_compressor { gzip_compressor(int = 0) {} gzip_compressor(gzip_params) {} };
struct gzip_decompressor {};
struct BackInserter { std::string* s; };
inline BackInserter back_inserter(std::string& s) { return {&s}; }
struct filtering_ostream {
  int mode = 0; std::string* sink = nullptr; std::string buf;
  void push(gzip_compressor) { mode = 1; } void push(gzip_decompressor) { mode = 2; } void push(BackInserter b) { sink = b.s; }
  ~filtering_ostream() {
    if (mode == 1) { *sink += "\x1f\x8b"; *sink += buf; }
    else if (mode == 2) { if (buf.size() < 2 || buf[0] != '\x1f' || buf[1] != '\x8b') symx_check_failed("gzip_error"); sink->append(buf, 2, std::string::npos); }
    else *sink += buf;
  }
};
inline long write(filtering_ostream& o, const char* p, long n) { o.buf.append(p, n); return n; }
} }
