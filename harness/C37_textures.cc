//@ time=250,800 parts=kind:3;m:8 src=io/submap_painter.cc
//# The picture of a submap: one pixel per cell of the known window (2D) or per column of obstructed voxels (3D), at its place in the map, with the brightness of its occupancy; unknown cells are transparent, known ones never; an empty submap gives an empty picture at the submap.
//b 2D: 3x2 cells, 8 known subsets with one cell from 48 stored values incl. both extremes, probability grid and signed-distance grid, two local poses with symbolic translation; 3D: up to two columns of up to three voxels with symbolic occupancy, three poses
//s cairo surfaces are stand-ins (pixels are taken from the buffer handed to cairo); gzip is a stand-in that keeps the data
#include "grid2d.h"
#include "cartographer/io/submap_painter.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/tsdf_2d.h"
#include "cartographer/transform/transform.h"
#include <cmath>
using namespace cartographer;
using namespace cartographer::mapping;
using transform::Rigid3d;
extern "C" {
int cairo_format_stride_for_width(cairo_format_t, int width) { return 4 * width; }
static int dummy_surface;
cairo_surface_t* cairo_image_surface_create_for_data(unsigned char*, cairo_format_t, int, int, int) { return reinterpret_cast<cairo_surface_t*>(&dummy_surface); }
cairo_surface_t* cairo_image_surface_create(cairo_format_t, int, int) { return reinterpret_cast<cairo_surface_t*>(&dummy_surface); }
cairo_status_t cairo_surface_status(cairo_surface_t*) { return CAIRO_STATUS_SUCCESS; }
const char* cairo_status_to_string(cairo_status_t) { return ""; }
void cairo_surface_destroy(cairo_surface_t*) {}
}
static bool Near(double a, double b, double t = 1e-6) { const double e = a - b; return (e <= t) & (e >= -t); }
static bool NearV(const Eigen::Vector3d& a, const Eigen::Vector3d& b, double t = 1e-6) { return Near(a.x(), b.x(), t) & Near(a.y(), b.y(), t) & Near(a.z(), b.z(), t); }
// brightness in -127..127: free is bright
static double Brightness(double p) { return 128. - (1. + 254. * (std::log(p / (1. - p)) / std::log(9.) + 1.) / 2.); }
static int Shown(uint32_t pixel) { return (int)(pixel >> 16 & 255) - (int)(pixel >> 24); }
static bool Observed(uint32_t pixel) { return (pixel >> 8 & 255) == 255; }
static bool Transparent(uint32_t pixel) { return pixel == 0; }
static Eigen::Quaterniond Turn(int k) { return k == 0 ? Eigen::Quaterniond::Identity() : k == 1 ? Eigen::Quaterniond(0.8, 0., 0., 0.6) : Eigen::Quaterniond(M_SQRT1_2, 0., 0., M_SQRT1_2); }
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 3), m = symx_choose("m", 8);
  if (kind < 2) {
    const int NX = 3, NY = 2, N = 6;
    static const int masks[8] = {0, 1, 32, 16, 9, 18, 33, 63};
    const int mask = masks[m];
    const int turn = symx_choose("turn", 2);
    const int level = kind == 0 ? symx_choose("level", 3) : 0;
    int v = symx_irange("value", 0, 15);
    v += level == 0 ? 1 : level == 1 ? 16380 : 32752;
    ValueConversionTables tables;
    int value[6], weight[6]; int first = -1;
    for (int i = 0; i < N; ++i) {
      value[i] = weight[i] = 0;
      if (!(mask >> i & 1)) continue;
      if (first < 0) { first = i; value[i] = v; weight[i] = kind == 1 ? 32767 : 0; if (kind == 1) value[i] = 1 + 2184 * (v - 1); } else { value[i] = 5000 * (i + 1); weight[i] = 6000 * i; }
    }
    mapping::proto::Submap proto;
    auto* p2 = proto.mutable_submap_2d();
    mapping::proto::Grid2D grid = MakeGridProto(NX, NY, 0.5, 1.25, -2., value);
    int lx = NX, hx = -1, ly = NY, hy = -1;
    for (int i = 0; i < N; ++i) if (mask >> i & 1) { lx = std::min(lx, i % NX); hx = std::max(hx, i % NX); ly = std::min(ly, i / NX); hy = std::max(hy, i / NX); }
    if (mask) { auto* b = grid.mutable_known_cells_box(); b->set_min_x(lx); b->set_max_x(hx); b->set_min_y(ly); b->set_max_y(hy); }
    if (kind == 1) {
      grid.clear_probability_grid_2d();
      auto* t = grid.mutable_tsdf_2d();
      t->set_truncation_distance(0.3f); t->set_max_weight(10.f);
      for (int i = 0; i < N; ++i) t->add_weight_cells(weight[i]);
      grid.set_min_correspondence_cost(-0.3f); grid.set_max_correspondence_cost(0.3f);
    }
    *p2->mutable_grid() = grid;
    Eigen::Vector3d at; at.x() = symx_f64_range("x", -10., 10.); at.y() = symx_f64_range("y", -10., 10.); at.z() = 0.;
    const Rigid3d local(at, Turn(turn)), global(Eigen::Vector3d(3., 4., 0.), Turn(1 - turn));
    *p2->mutable_local_pose() = transform::ToProto(local);
    p2->set_num_range_data(5); p2->set_finished(true);
    io::SubmapSlice slice;
    io::FillSubmapSlice(global, proto, &slice, &tables);
    const int w = mask ? hx - lx + 1 : 1, h = mask ? hy - ly + 1 : 1;
    symx_assert(slice.width == w && slice.height == h && (int)slice.cairo_data.size() == w * h && slice.resolution == 0.5, "one pixel per cell of the known window");
    symx_assert(slice.pose.translation() == global.translation(), "the picture belongs to the pose of the submap");
    const int ox = mask ? lx : 0, oy = mask ? ly : 0;
    const Eigen::Vector3d corner(1.25 - 0.5 * oy, -2. - 0.5 * ox, 0.);
    symx_assert(NearV(local * slice.slice_pose.translation(), corner), "the corner of the picture is the corner of the known window");
    symx_assert(Near((local.rotation() * slice.slice_pose.rotation()).angularDistance(Eigen::Quaterniond::Identity()), 0., 1e-6), "the picture is aligned with the grid");
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
      const int cell = (i + oy) * NX + j + ox;
      const uint32_t pixel = slice.cairo_data[i * w + j];
      if (!(mask >> cell & 1)) { symx_assert(Transparent(pixel), "unknown cells are transparent"); continue; }
      symx_assert(Observed(pixel), "known cells are marked as observed");
      const int shown = Shown(pixel);
      if (kind == 0) {
        const double want = Brightness(1. - (0.1 + (value[cell] - 1) * (0.8 / 32766.)));
        symx_assert((shown <= want + 1.51) & (shown >= want - 1.51), "brightness follows the probability of the cell");
      } else {
        const double tsd = -0.3 + (value[cell] - 1) * (0.6 / 32766.), wt = weight[cell] == 0 ? 0. : (weight[cell] - 1) * (10. / 32766.);
        const double a = tsd < 0 ? -tsd : tsd;
        const double want = wt / 10. * (std::sqrt(a / 0.3) * 255. - 128.);
        symx_assert((shown <= want + 1.51) & (shown >= want - 1.51), "brightness follows distance and weight of the cell");
      }
    }
  } else {
    const int turn = symx_choose("turn", 3);
    mapping::proto::Submap proto;
    auto* p3 = proto.mutable_submap_3d();
    *p3->mutable_local_pose() = transform::ToProto(Rigid3d::Translation(Eigen::Vector3d(7., 8., 9.)));
    p3->set_num_range_data(5); p3->set_finished(true);
    p3->mutable_high_resolution_hybrid_grid()->set_resolution(0.5f);
    p3->mutable_low_resolution_hybrid_grid()->set_resolution(2.f);
    struct V { int c, z; };
    static const V sets[8][3] = {{{0, 0}, {0, 3}, {0, 5}}, {{0, 0}, {0, 2}, {1, 4}}, {{0, -3}, {1, 1}, {1, 6}}, {{0, 0}, {0, 1}, {0, 2}}, {{1, -1}, {1, 2}, {0, 9}}, {{0, 0}, {1, 0}, {0, 3}}, {{1, 0}, {1, 1}, {1, 3}}, {{0, 0}, {0, 0}, {0, 0}}};
    const int count = m == 7 ? 0 : 3;
    // columns: (0, 0) and (2, -3)
    static const int cx[2] = {0, 2}, cy[2] = {0, -3};
    double prob[3]; bool solid[3];
    for (int k = 0; k < count; ++k) {
      const int s = symx_irange("v", 0, 3);
      const int val = 15000 + 5900 * s;   // 0.466, 0.61, 0.754, 0.898
      prob[k] = 0.1 + (val - 1) * (0.8 / 32766.);
      solid[k] = s > 0;
      auto* g = p3->mutable_high_resolution_hybrid_grid();
      g->add_x_indices(cx[sets[m][k].c]); g->add_y_indices(cy[sets[m][k].c]); g->add_z_indices(sets[m][k].z); g->add_values(val);
    }
    const Rigid3d global(Eigen::Vector3d(3., 4.5, 1.), turn == 0 ? Eigen::Quaterniond::Identity() : turn == 1 ? Eigen::Quaterniond(M_SQRT1_2, 0., 0., M_SQRT1_2) : Eigen::Quaterniond(0., 0., 0., 1.));
    io::SubmapSlice slice;
    io::FillSubmapSlice(global, proto, &slice, nullptr);
    symx_assert(slice.resolution == 0.5 && (int)slice.cairo_data.size() == slice.width * slice.height && slice.width >= 1 && slice.height >= 1, "the picture has the resolution and size it says");
    // voxel columns in the map frame
    int gx[2], gy[2];
    for (int c = 0; c < 2; ++c) {
      const int rx = turn == 0 ? cx[c] : turn == 1 ? -cy[c] : -cx[c], ry = turn == 0 ? cy[c] : turn == 1 ? cx[c] : -cy[c];
      gx[c] = rx + 6; gy[c] = ry + 9;
    }
    bool any = false; int mx = -1000, my = -1000, nx = 1000, ny = 1000;
    for (int k = 0; k < count; ++k) if (solid[k]) { any = true; const int c = sets[m][k].c; mx = std::max(mx, gx[c]); my = std::max(my, gy[c]); nx = std::min(nx, gx[c]); ny = std::min(ny, gy[c]); }
    const Eigen::Vector3d corner = global * slice.slice_pose.translation();
    if (!any) {
      bool clear = true; for (uint32_t pixel : slice.cairo_data) clear = clear && Transparent(pixel);
      symx_assert(clear, "a submap without obstructed voxels gives an empty picture");
      symx_assert(slice.width <= 8 && slice.height <= 8 && Near(corner.x(), 3., 100.) && Near(corner.y(), 4.5, 100.), "an empty picture stays near the submap");
      symx_reach("empty");
    } else {
      symx_assert(slice.width == my - ny + 1 && slice.height == mx - nx + 1, "the picture covers exactly the obstructed columns");
      symx_assert(NearV(corner, Eigen::Vector3d(mx * 0.5, my * 0.5, 1.)), "the corner of the picture is its largest column at the height of the submap");
      symx_assert((global.rotation() * slice.slice_pose.rotation()).angularDistance(Eigen::Quaterniond::Identity()) < 1e-6, "the picture is aligned with the map");
      for (int i = 0; i < slice.height; ++i) for (int j = 0; j < slice.width; ++j) {
        const uint32_t pixel = slice.cairo_data[i * slice.width + j];
        int n = 0, lo = 1000, hi = -1000; double sum = 0., top = 0.5;
        for (int k = 0; k < count; ++k) if (solid[k] && gx[sets[m][k].c] == mx - i && gy[sets[m][k].c] == my - j) { ++n; lo = std::min(lo, sets[m][k].z); hi = std::max(hi, sets[m][k].z); sum += prob[k]; top = prob[k] > top ? prob[k] : top; }
        if (n == 0 || hi - lo < 3) { symx_assert(Transparent(pixel), "columns without extent are transparent"); continue; }
        symx_assert(Observed(pixel), "obstructed columns are marked as observed");
        const double free_space = hi - lo > n ? 0.15 * (hi - lo - n) : 0.;
        const double want = Brightness((sum + (1. - top) * free_space) / (n + free_space));
        const int shown = Shown(pixel);
        symx_assert((shown <= want + 1.51) & (shown >= want - 1.51), "brightness follows occupancy and gaps of the column");
        symx_reach("column");
      }
    }
  }
  symx_reach("end");
}
