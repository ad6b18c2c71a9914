//@ time=100,300
//# The file writer reports success only if everything handed to it is in the file: opening, any write or the flush at closing may fail, and then a write or the closing reports it; a header written last replaces the first bytes only.
//b three writes of symbolic bytes and a header; a fault at opening, at any write, at closing, or none
//s file stream: in-memory file with the standard error flags and injected faults
#include "memfile.h"
#include "cartographer/common/port.h"
#define ofstream symx_ofstream
#define StreamFileWriter SymxStreamFileWriter
#define FileWriter SymxFileWriter
#include "cartographer/io/file_writer.h"
#include "cartographer/io/file_writer.cc"
using namespace cartographer;
extern "C" void symx_main() {
  const int fault = symx_irange("fault", 0, 6);
  g_file->fail_open = fault == 1; g_file->fail_close = fault == 2; g_file->writes_left = fault < 3 ? -1 : fault - 3;
  io::SymxStreamFileWriter w("name");
  char d[8];
  for (int i = 0; i < 8; ++i) d[i] = symx_u8("byte");
  bool ok = true;
  ok &= w.WriteHeader(d, 2);
  ok &= w.Write(d + 2, 3);
  ok &= w.Write(d + 5, 1);
  ok &= w.WriteHeader(d + 6, 2);
  ok &= w.Close();
  symx_assert(ok == (fault == 0), "success is reported exactly if nothing went wrong");
  if (ok) {
    const std::string& c = g_file->content;
    symx_assert(c.size() == 6 && c[0] == d[6] && c[1] == d[7] && c[2] == d[2] && c[3] == d[3] && c[4] == d[4] && c[5] == d[5], "the file holds what was written, with the last header");
  }
  symx_assert(w.GetFilename() == "name", "the file name is kept");
  symx_reach("end");
}
