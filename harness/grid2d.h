// A small probability grid given by its stored values.
#pragma once
#include "symx.h"
#include "cartographer/mapping/2d/probability_grid.h"
static cartographer::mapping::proto::Grid2D MakeGridProto(int nx, int ny, double resolution, double max_x, double max_y, const int* value) {
  cartographer::mapping::proto::Grid2D p;
  p.mutable_limits()->set_resolution(resolution);
  p.mutable_limits()->mutable_max()->set_x(max_x); p.mutable_limits()->mutable_max()->set_y(max_y);
  p.mutable_limits()->mutable_cell_limits()->set_num_x_cells(nx); p.mutable_limits()->mutable_cell_limits()->set_num_y_cells(ny);
  for (int i = 0; i < nx * ny; ++i) p.add_cells(value[i]);
  p.set_min_correspondence_cost(cartographer::mapping::kMinCorrespondenceCost); p.set_max_correspondence_cost(cartographer::mapping::kMaxCorrespondenceCost);
  p.mutable_probability_grid_2d();
  return p;
}
// one of four contents without branching: unknown, smallest cost, an intermediate one, largest cost
static inline int StoredValue(int v) { return (v == 1) * 1 + (v == 2) * 12345 + (v == 3) * 32767; }
static inline int StoredLevel(int v) { return (v == 1) * 255 + (v == 2) * 159; }  // score of it in 1/255 of the range
// the shared tables, already filled (before anything is symbolic)
static cartographer::mapping::ValueConversionTables* FilledTables() {
  auto* tables = new cartographer::mapping::ValueConversionTables;
  const int zero = 0;
  cartographer::mapping::ProbabilityGrid grid(MakeGridProto(1, 1, 1., 0., 0., &zero), tables);
  return tables;
}
