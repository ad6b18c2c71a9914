//@ time=150,600 parts=n:3
//# A proto stream gives back exactly the written messages in order; a file cut off at any byte (crash while writing) gives back exactly the messages that were written completely, then reports the end, and never a damaged or extra message; a file without the leading magic number is refused.
//b up to 2 messages (thorough 3) of 0 to 3 symbolic bytes each, cut at any byte position; any first 8 bytes
//s file streams: in-memory file with the standard error flags; gzip: an injective, self-identifying encoding
#include "symx.h"
#include "memfile.h"
#include "cartographer/common/port.h"
#include "cartographer/io/proto_stream_interface.h"
#include "google/protobuf/message.h"
#include "glog/logging.h"
#define private public
#define ofstream symx_ofstream
#define ifstream symx_ifstream
#define ostream symx_ostream
#define istream symx_istream
static void StubGzip(const std::string& a, std::string* b) { *b = "\x1f"; *b += a; }
static void StubGunzip(const std::string& a, std::string* b) { symx_assert(!a.empty() && a[0] == '\x1f', "only complete messages are decompressed"); b->assign(a, 1, std::string::npos); }
namespace cartographer { namespace common { static void SymxGzip(const std::string& a, std::string* b) { StubGzip(a, b); } static void SymxGunzip(const std::string& a, std::string* b) { StubGunzip(a, b); } } }
#define FastGzipString SymxGzip
#define FastGunzipString SymxGunzip
#include "cartographer/io/proto_stream.h"
#define ProtoStreamWriter SymxProtoStreamWriter
#define ProtoStreamReader SymxProtoStreamReader
#undef CARTOGRAPHER_IO_PROTO_STREAM_H_
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/proto_stream.cc"
#undef private
using namespace cartographer;
extern "C" void symx_main() {
  const int n = symx_choose("n", 3 + TIER);
  std::vector<std::string> written;
  std::vector<size_t> end;
  {
    io::SymxProtoStreamWriter writer("file");
    for (int i = 0; i < n; ++i) {
      const int len = symx_choose("len", 4);
      std::string m;
      for (int j = 0; j < len; ++j) { const uint8_t b = symx_u8("byte"); m.push_back(b); }
      writer.Write(m);
      written.push_back(m); end.push_back(g_file->content.size());
    }
    symx_assert(writer.Close(), "writing succeeds");
  }
  const int cut = symx_choose("cut", 2);
  if (cut) {
    const int total = g_file->content.size();
    const int at = int(symx_concretize(symx_irange("at", 8, total)));
    g_file->content.resize(at);
  }
  const size_t size = g_file->content.size();
  io::SymxProtoStreamReader reader("file");
  for (int i = 0; i < n && end[i] <= size; ++i) {
    std::string m;
    symx_assert(reader.Read(&m), "a complete message is read");
    symx_assert(m == written[i], "messages come back unchanged and in order");
  }
  std::string m;
  symx_assert(!reader.Read(&m), "after the last complete message reading reports the end");
  symx_assert(!reader.Read(&m), "reading goes on reporting the end");
  symx_assert(reader.eof(), "the end of the file is reported");
  if (n == 0 && !cut) {
    for (int i = 0; i < 8; ++i) g_file->content[i] ^= symx_u8("damage");
    bool same = true;
    static const unsigned char kMagic[8] = {0xdb, 0x01, 0xf5, 0x5b, 0x7b, 0x1f, 0x1d, 0x7b};
    for (int i = 0; i < 8; ++i) same &= (unsigned char)g_file->content[i] == kMagic[i];
    symx_assume(!same);
    symx_reach("damaged");
    symx_expect_crash_begin("a file without the magic number is refused");
    io::SymxProtoStreamReader bad("file");
    symx_expect_crash_end("a file without the magic number is refused");
  }
  symx_reach("end");
}
