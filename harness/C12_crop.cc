//@ time=250,800 parts=m0:8 tparts=m0:8
//# Cropping keeps every known cell at its place with its value and shrinks to the tight bounding box; serialization round-trips every cell, the box and the bounds.
//b 3x2 cells (thorough 3x3), every subset of known cells, one known cell with any of the 32767 values, the others fixed
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
using namespace cartographer;
using namespace cartographer::mapping;
extern "C" void symx_main() {
  const int NX = 3, NY = TIER ? 3 : 2, N = NX * NY;
  const int m0 = symx_choose("m0", 8), m1 = symx_choose("m1", 1 << (N - 3));
  const int mask = m0 | (m1 << 3);
  ValueConversionTables tables;
  proto::Grid2D p;
  p.mutable_limits()->set_resolution(0.5);
  p.mutable_limits()->mutable_max()->set_x(1.25); p.mutable_limits()->mutable_max()->set_y(-2.);
  p.mutable_limits()->mutable_cell_limits()->set_num_x_cells(NX); p.mutable_limits()->mutable_cell_limits()->set_num_y_cells(NY);
  int lx = NX, hx = -1, ly = NY, hy = -1;
  uint16 value[9];
  bool used = false;
  for (int i = 0; i < N; ++i) {
    value[i] = 0;
    if (mask >> i & 1) {
      if (!used) { value[i] = symx_u16("value"); symx_assume(value[i] >= 1 && value[i] <= 32767); used = true; } else value[i] = 1000 * (i + 1);
      lx = std::min(lx, i % NX); hx = std::max(hx, i % NX); ly = std::min(ly, i / NX); hy = std::max(hy, i / NX);
    }
    p.add_cells(value[i]);
  }
  if (mask) {
    auto* b = p.mutable_known_cells_box();
    b->set_min_x(lx); b->set_max_x(hx); b->set_min_y(ly); b->set_max_y(hy);
  }
  p.set_min_correspondence_cost(kMinCorrespondenceCost); p.set_max_correspondence_cost(kMaxCorrespondenceCost);
  p.mutable_probability_grid_2d();
  ProbabilityGrid grid(p, &tables);
  // serialization
  const proto::Grid2D q = grid.ToProto();
  symx_assert(q.cells_size() == N && q.has_probability_grid_2d(), "serialized grid has every cell and its type");
  for (int i = 0; i < N; ++i) symx_assert(q.cells(i) == value[i], "serialization keeps every cell");
  symx_assert(q.limits().resolution() == 0.5 && q.limits().max().x() == 1.25 && q.limits().max().y() == -2. && q.limits().cell_limits().num_x_cells() == NX && q.limits().cell_limits().num_y_cells() == NY, "serialization keeps the limits");
  symx_assert(q.has_known_cells_box() == (mask != 0), "known box is stored iff there are known cells");
  if (mask) symx_assert(q.known_cells_box().min_x() == lx && q.known_cells_box().max_x() == hx && q.known_cells_box().min_y() == ly && q.known_cells_box().max_y() == hy, "serialization keeps the known box");
  symx_assert(q.min_correspondence_cost() == kMinCorrespondenceCost && q.max_correspondence_cost() == kMaxCorrespondenceCost, "serialization keeps the cost bounds");
  // cropping
  Eigen::Array2i offset; CellLimits limits;
  grid.ComputeCroppedLimits(&offset, &limits);
  if (mask) symx_assert(offset.x() == lx && offset.y() == ly && limits.num_x_cells == hx - lx + 1 && limits.num_y_cells == hy - ly + 1, "cropped limits are the tight bounding box");
  else symx_assert(offset.x() == 0 && offset.y() == 0 && limits.num_x_cells == 1 && limits.num_y_cells == 1, "an empty grid crops to one cell");
  const std::unique_ptr<Grid2D> cropped = grid.ComputeCroppedGrid();
  const MapLimits& cl = cropped->limits();
  symx_assert(cl.resolution() == 0.5 && cl.cell_limits().num_x_cells == limits.num_x_cells && cl.cell_limits().num_y_cells == limits.num_y_cells, "cropped grid has the cropped size");
  symx_assert(cl.max().x() == 1.25 - 0.5 * offset.y() && cl.max().y() == -2. - 0.5 * offset.x(), "cropped grid keeps its place in the world");
  const proto::Grid2D c = cropped->ToProto();
  for (int x = 0; x < limits.num_x_cells; ++x) for (int y = 0; y < limits.num_y_cells; ++y)
    symx_assert(c.cells(y * limits.num_x_cells + x) == value[(y + offset.y()) * NX + x + offset.x()], "cropping keeps every cell value");
  symx_reach("end");
}
