// Symbolic contents of single voxels: unset or one of three probabilities.
#pragma once
#include "symx.h"
#include "cartographer/mapping/3d/hybrid_grid.h"
struct Voxel { int x, y, z; };
// v: 0 unset, 1 -> 0.9, 2 -> 0.5, 3 -> 0.1
static inline double VoxelProbability(int v) { static const double p[4] = {0.1, 0.9, 0.5, 0.1}; return p[v]; }
static inline int VoxelLevel(int v) { return (v == 1) * 255 + (v == 2) * 128; }
static void FillVoxel(cartographer::mapping::HybridGrid* grid, const Voxel& c, int v) {
  static const float p[4] = {0.1f, 0.9f, 0.5f, 0.1f};
  if (v != 0) grid->SetProbability(Eigen::Array3i(c.x, c.y, c.z), p[v]);
}
