//@ time=150,600 parts=kind:2;c0:2;c1:2
//# Written PLY and PCD files always match their header: it declares as many points as the body holds and exactly the fields each point has; the body holds all points of all batches in order with their exact coordinates, 8-bit colours and intensities; batches are passed on unchanged and the file is closed at the end. If a later batch lacks a declared field the writer refuses instead of writing a broken file.
//b two batches of 0 to 2 points, each with or without colours and intensities; any coordinates and intensities; one colour component any float, the others fixed
//s the file is an in-memory FileWriter; text formatting of the header by a small stand-in for std::ostringstream (the native replay uses the real one)
#include "memfile.h"
#include "cartographer/io/file_writer.h"
#include "cartographer/io/points_processor.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "absl/memory/memory.h"
#include "glog/logging.h"
#if SYMX_SOLVER
#define ostringstream symx_ostringstream
#endif
#define PlyWritingPointsProcessor SymxPly
#define PcdWritingPointsProcessor SymxPcd
#include "cartographer/io/ply_writing_points_processor.cc"
#define WriteBinaryPcdHeader SymxPcdHeader
#include "cartographer/io/pcd_writing_points_processor.cc"
using namespace cartographer;
using namespace cartographer::io;
struct Sink : public PointsProcessor {
  std::vector<std::unique_ptr<PointsBatch>> got; int flushed = 0;
  void Process(std::unique_ptr<PointsBatch> b) override { got.push_back(std::move(b)); }
  FlushResult Flush() override { ++flushed; return FlushResult::kFinished; }
};
struct File { std::string content; bool closed = false; };
struct Memory : public FileWriter {
  File* f; explicit Memory(File* f) : f(f) {}
  bool WriteHeader(const char* d, size_t n) override { for (size_t i = 0; i < n; ++i) { if (i < f->content.size()) f->content[i] = d[i]; else f->content.push_back(d[i]); } return true; }
  bool Write(const char* d, size_t n) override { symx_assert(!f->closed, "nothing is written to a closed file"); f->content.append(d, n); return true; }
  bool Close() override { f->closed = true; return true; }
  std::string GetFilename() override { return "file"; }
};
static bool Has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
static long Number(const std::string& s, const char* t) { size_t p = s.find(t); if (p == std::string::npos) return -1; p += strlen(t); long v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0'); return v; }
// memory that held something else before
static void* Used(size_t n) { char* p = static_cast<char*>(malloc(n)); volatile char* q = p; for (size_t i = 0; i < n; ++i) q[i] = 1; asm volatile("" : : "r"(p) : "memory"); return p; }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 2), c0 = symx_choose("c0", 2), c1 = symx_choose("c1", 2), i0 = symx_choose("i0", 2), i1 = symx_choose("i1", 2), n0 = symx_choose("n0", 3), n1 = symx_choose("n1", 3);
  File file; Sink sink;
  PointsProcessor* w;
  if (kind == 0) w = new (Used(sizeof(SymxPly))) SymxPly(std::unique_ptr<FileWriter>(new Memory(&file)), {"a comment"}, &sink);
  else w = new (Used(sizeof(SymxPcd))) SymxPcd(std::unique_ptr<FileWriter>(new Memory(&file)), &sink);
  std::vector<float> xyz, inten; std::vector<float> red;
  const int n[2] = {n0, n1}, c[2] = {c0, c1}, in[2] = {i0, i1};
  // a mixture of batches with and without a field may be refused
  if (n0 > 0 && n1 > 0 && ((c0 && !c1) || (i0 && !i1))) symx_crash_ok(1);
  for (int b = 0; b < 2; ++b) {
    auto batch = absl::make_unique<PointsBatch>();
    batch->frame_id = "frame"; batch->trajectory_id = 7;
    for (int k = 0; k < n[b]; ++k) {
      const float x = symx_f32("x"), y = symx_f32("y"), z = symx_f32("z");
      batch->points.push_back({Eigen::Vector3f(x, y, z)});
      xyz.push_back(x); xyz.push_back(y); xyz.push_back(z);
      const float i = symx_f32("i"), r = symx_f32("r");
      inten.push_back(i); red.push_back(r);
      if (in[b]) batch->intensities.push_back(i);
      if (c[b]) batch->colors.push_back({{r, 0.25f, 1.f}});
    }
    const PointsBatch* const raw = batch.get();
    w->Process(std::move(batch));
    symx_assert(sink.got.size() == size_t(b + 1) && sink.got[b].get() == raw && raw->points.size() == size_t(n[b]) && raw->frame_id == "frame", "batches are passed on");
  }
  symx_assert(w->Flush() == PointsProcessor::FlushResult::kFinished && sink.flushed == 1, "the end is passed on");
  symx_assert(file.closed, "the file is closed");
  const std::string marker = kind == 0 ? "end_header\n" : "DATA binary\n";
  const size_t split = file.content.find(marker);
  symx_assert(split != std::string::npos, "the header is complete");
  const std::string head = file.content.substr(0, split), body = file.content.substr(split + marker.size());
  const size_t total = n0 + n1;
  bool color, intensity;
  if (kind == 0) {
    symx_assert(head.substr(0, 4) == "ply\n" && Has(head, "format binary_little_endian 1.0\n") && Has(head, "comment a comment\n"), "the file says what it is");
    symx_assert(Number(head, "element vertex ") == long(total), "the header declares the number of points");
    symx_assert(Has(head, "property float x\nproperty float y\nproperty float z\n"), "the header declares the coordinates");
    color = Has(head, "property uchar red\nproperty uchar green\nproperty uchar blue\n"); intensity = Has(head, "property float intensity\n");
  } else {
    symx_assert(Number(head, "POINTS ") == long(total) && Number(head, "WIDTH ") == long(total) && Has(head, "HEIGHT 1\n"), "the header declares the number of points");
    color = Has(head, "FIELDS x y z rgb\nSIZE 4 4 4 4\nTYPE F F F U\nCOUNT 1 1 1 1\n"); intensity = false;
    symx_assert(color || Has(head, "FIELDS x y z\nSIZE 4 4 4\nTYPE F F F\nCOUNT 1 1 1\n"), "the header declares the fields");
  }
  const int first = n0 > 0 ? 0 : 1;
  symx_assert(color == (total > 0 && c[first]), "colours are declared as the first points have them");
  symx_assert(kind == 1 || intensity == (total > 0 && in[first]), "intensities are declared as the first points have them");
  const size_t record = 12 + (color ? (kind == 0 ? 3 : 4) : 0) + (intensity ? 4 : 0);
  symx_assert(body.size() == total * record, "the body holds exactly the declared points and fields");
  for (size_t k = 0; k < total; ++k) {
    const char* p = body.data() + k * record;
    bool same = true;
    for (int d = 0; d < 3; ++d) { uint32_t a, b; memcpy(&a, p + 4 * d, 4); memcpy(&b, &xyz[3 * k + d], 4); same &= a == b; }
    symx_assert(same, "coordinates are written exactly and in order");
    if (color) {
      const unsigned char *q = (const unsigned char*)p + 12, r = q[kind == 0 ? 0 : 2], g = q[1], b = q[kind == 0 ? 2 : 0];
      symx_assert(g == 64 && b == 255, "colours are written as 8 bits");
      const float v = red[k];
      symx_assert((!(v <= 0.f) || r == 0) && (!(v >= 1.f) || r == 255) && (!(v > 0.f && v < 1.f) || (v * 255.f - 0.501f <= r && r <= v * 255.f + 0.501f)), "colours are rounded and clamped to 8 bits");
    }
    if (intensity) { uint32_t a, b; memcpy(&a, p + record - 4, 4); memcpy(&b, &inten[k], 4); symx_assert(a == b, "intensities are written exactly"); }
  }
  symx_reach("end");
}
