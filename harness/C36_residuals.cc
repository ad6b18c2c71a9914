//@ time=200,600 parts=kind:7
//# Residuals of pose graph constraints (2D and 3D, automatic and analytical derivatives), landmark observations, IMU terms and scan matching priors equal the weighted disagreement between observation and poses, and vanish where they agree.
//b rotations and interpolation factors from fixed sets, translations and weights symbolic within 100 m / 1e3, tolerance 1e-6 relative to the weight
//s automatic differentiation itself belongs to Ceres; residuals are evaluated on doubles, the analytical Jacobian is compared with the derivative of the residual
#include "symx.h"
#include "cartographer/common/math.h"
#include "cartographer/mapping/internal/optimization/cost_functions/cost_helpers.h"
#include "cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_2d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/spa_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_2d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/landmark_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/rotation_cost_function_3d.h"
#include "cartographer/mapping/internal/optimization/cost_functions/acceleration_cost_function_3d.h"
#include "cartographer/mapping/internal/2d/scan_matching/rotation_delta_cost_functor_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/translation_delta_cost_functor_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotation_delta_cost_functor_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/translation_delta_cost_functor_3d.h"
#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/transform.h"
namespace ceres { CostFunction::CostFunction() : num_residuals_(0) {} CostFunction::~CostFunction() {} }
using namespace cartographer;
using namespace cartographer::mapping;
using transform::Rigid2d; using transform::Rigid3d;
static double S(const char* n) { return symx_f64_range(n, -100., 100.); }
static bool Near(double a, double b, double t = 1e-7) { const double e = a - b; return e <= t && e >= -t; }
static const double kAngles[6] = {0., 0.7, -2.1, 3.1415, 1.5707963267948966, -0.001};
static Eigen::Quaterniond Q(int i) {
  switch (i) {
    case 0: return Eigen::Quaterniond::Identity();
    case 1: return Eigen::Quaterniond(0.5, -0.5, 0.5, 0.5);
    case 2: return Eigen::Quaterniond(0.6, 0., 0.8, 0.);
    case 3: return Eigen::Quaterniond(0.8, 0., 0., -0.6);
    case 4: return Eigen::Quaterniond(0.28, 0.576, 0.768, 0.);
    default: return Eigen::Quaterniond(0.5, 0.1, -0.7, 0.5);
  }
}
struct Q4 { double v[4]; explicit Q4(const Eigen::Quaterniond& q) { v[0] = q.w(); v[1] = q.x(); v[2] = q.y(); v[3] = q.z(); } };
static void Evaluate(ceres::CostFunction* f, std::vector<const double*> p, double* r) {
  symx_assert(f->Evaluate(p.data(), r, nullptr), "residuals can be evaluated");
}
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 7);
  if (kind == 0) {
    const int i = symx_choose("start", 6), j = symx_choose("end", 6), k = symx_choose("observed", 3);
    const double weight[3][2] = {{1., 1.}, {11000., 37.}, {0.25, 1e5}};
    const double tw = weight[k][0], rw = weight[k][1];
    double start[3], end[3]; double z[3];
    start[0] = S("sx"); start[1] = S("sy"); start[2] = kAngles[i];
    end[0] = S("ex"); end[1] = S("ey"); end[2] = kAngles[j];
    z[0] = S("zx"); z[1] = S("zy"); z[2] = kAngles[2 * k];
    const Rigid2d observed({z[0], z[1]}, z[2]), s({start[0], start[1]}, start[2]), e({end[0], end[1]}, end[2]);
    const PoseGraphInterface::Constraint::Pose pose{transform::Embed3D(observed), tw, rw};
    const Rigid2d relative = s.inverse() * e;
    const double turn = observed.rotation().angle() - (end[2] - start[2]);
    for (int analytical = 0; analytical < 2; ++analytical) {
      ceres::CostFunction* f = analytical ? optimization::CreateAnalyticalSpaCostFunction(pose) : optimization::CreateAutoDiffSpaCostFunction(pose);
      double r[3] = {7., 7., 7.};
      Evaluate(f, {start, end}, r);
      symx_assert(Near(r[0] / tw, z[0] - relative.translation().x()) && Near(r[1] / tw, z[1] - relative.translation().y()), "2D translation residual is the weighted disagreement");
      symx_assert(r[2] / rw <= M_PI + 1e-9 && r[2] / rw >= -M_PI - 1e-9 && Near(std::sin(r[2] / rw), std::sin(turn)) && Near(std::cos(r[2] / rw), std::cos(turn)), "2D rotation residual is the weighted smallest angle");
      if (analytical) {
        double j0[9], j1[9]; double* jac[2] = {j0, j1}; const double* p[2] = {start, end};
        f->Evaluate(p, r, jac);
        // residual = w * (z - R(start)^T (end - start))
        const double c = std::cos(start[2]), n = std::sin(start[2]), dx = end[0] - start[0], dy = end[1] - start[1];
        const double want0[9] = {tw * c, tw * n, tw * (n * dx - c * dy), -tw * n, tw * c, tw * (c * dx + n * dy), 0., 0., rw};
        const double want1[9] = {-tw * c, -tw * n, 0., tw * n, -tw * c, 0., 0., 0., -rw};
        for (int q = 0; q < 9; ++q) symx_assert(Near(j0[q] / tw, want0[q] / tw) && Near(j1[q] / tw, want1[q] / tw), "analytical 2D derivatives");
        double only[9]; double* one[2] = {nullptr, only};
        f->Evaluate(p, r, one);
        for (int q = 0; q < 9; ++q) symx_assert(only[q] == j1[q], "derivatives are filled in only where asked for");
      }
      delete f;
    }
  } else if (kind == 1) {
    const int i = symx_choose("start", 6), j = symx_choose("end", 6), k = symx_choose("observed", 6);
    const double tw = k % 2 ? 1. : 11000., rw = k % 3 ? 37. : 1.;
    double st[3], et[3]; Eigen::Vector3d z;
    for (int a = 0; a < 3; ++a) { st[a] = S("s"); et[a] = S("e"); z[a] = S("z"); }
    const Q4 sr(Q(i)), er(Q(j));
    const PoseGraphInterface::Constraint::Pose pose{Rigid3d(z, Q(k)), tw, rw};
    ceres::CostFunction* f = optimization::SpaCostFunction3D::CreateAutoDiffCostFunction(pose);
    double r[6];
    Evaluate(f, {sr.v, st, er.v, et}, r);
    const Rigid3d s(Eigen::Vector3d(st[0], st[1], st[2]), Q(i)), e(Eigen::Vector3d(et[0], et[1], et[2]), Q(j));
    const Rigid3d relative = s.inverse() * e;
    for (int a = 0; a < 3; ++a) symx_assert(Near(r[a] / tw, z[a] - relative.translation()[a]), "3D translation residual is the weighted disagreement");
    const Eigen::Quaterniond error = relative.rotation().inverse() * Q(k);
    const Eigen::Vector3d axis(r[3] / rw, r[4] / rw, r[5] / rw);
    symx_assert(axis.norm() <= M_PI + 1e-9 && transform::AngleAxisVectorToRotationQuaternion(axis).angularDistance(error) < 1e-6, "3D rotation residual is the weighted smallest turn");
    delete f;
  } else if (kind == 2 || kind == 3) {
    // landmarks: interpolated pose between two nodes
    const int i = symx_choose("previous", 4), j = symx_choose("next", 3), k = symx_choose("landmark", TIER ? 3 : 2), l = symx_choose("time", 4);
    const double tw = k % 2 ? 1. : 1000., rw = k % 2 ? 37. : 1.;
    const double factor = l / 4. + (l == 3 ? 0.25 : 0.);
    PoseGraphInterface::LandmarkNode::LandmarkObservation o;
    Eigen::Vector3d z; double pt[3], nt[3], lt[3];
    for (int a = 0; a < 3; ++a) { pt[a] = S("p"); nt[a] = S("n"); lt[a] = S("l"); z[a] = S("z"); }
    const common::Time t0 = common::FromUniversal(5000000);
    o.trajectory_id = 0; o.time = t0 + common::FromSeconds(4. * factor);
    o.landmark_to_tracking_transform = Rigid3d(z, Q(5 - k)); o.translation_weight = tw; o.rotation_weight = rw;
    const Q4 lr(Q(k + 1));
    const Rigid3d landmark(Eigen::Vector3d(lt[0], lt[1], lt[2]), Q(k + 1));
    double r[6]; Rigid3d interpolated;
    ceres::CostFunction* f = nullptr;
    if (kind == 2) {
      const Q4 pr(Q(i)), nr(Q(j + 1));
      optimization::NodeSpec3D prev{t0, Rigid3d(), Rigid3d()}, next{t0 + common::FromSeconds(4.), Rigid3d(), Rigid3d()};
      f = optimization::LandmarkCostFunction3D::CreateAutoDiffCostFunction(o, prev, next);
      Evaluate(f, {pr.v, pt, nr.v, nt, lr.v, lt}, r);
      Eigen::Vector3d t; for (int a = 0; a < 3; ++a) t[a] = (1. - factor) * pt[a] + factor * nt[a];
      interpolated = Rigid3d(t, Q(i).slerp(factor, Q(j + 1)));
    } else {
      const double pp[3] = {pt[0], pt[1], kAngles[i]}, np[3] = {nt[0], nt[1], kAngles[j + 1]};
      optimization::NodeSpec2D prev{t0, Rigid2d(), Rigid2d(), Q(2)}, next{t0 + common::FromSeconds(4.), Rigid2d(), Rigid2d(), Q(j)};
      f = optimization::LandmarkCostFunction2D::CreateAutoDiffCostFunction(o, prev, next);
      Evaluate(f, {pp, np, lr.v, lt}, r);
      Eigen::Vector3d t(0., 0., 0.); for (int a = 0; a < 2; ++a) t[a] = (1. - factor) * pt[a] + factor * nt[a];
      const Eigen::Quaterniond a = Eigen::AngleAxisd(kAngles[i], Eigen::Vector3d::UnitZ()) * Q(2), b = Eigen::AngleAxisd(kAngles[j + 1], Eigen::Vector3d::UnitZ()) * Q(j);
      interpolated = Rigid3d(t, a.slerp(factor, b));
    }
    const Rigid3d relative = interpolated.inverse() * landmark;
    for (int a = 0; a < 3; ++a) symx_assert(Near(r[a] / tw, z[a] - relative.translation()[a], 1e-6), "landmark translation residual is the weighted disagreement with the interpolated pose");
    const Eigen::Quaterniond error = relative.rotation().inverse() * Q(5 - k);
    const Eigen::Vector3d axis(r[3] / rw, r[4] / rw, r[5] / rw);
    symx_assert(axis.norm() <= M_PI + 1e-6 && transform::AngleAxisVectorToRotationQuaternion(axis).angularDistance(error) < 1e-6, "landmark rotation residual is the weighted smallest turn");
    delete f;
  } else if (kind == 4) {
    // IMU terms
    const int i = symx_choose("middle", TIER ? 6 : 4), j = symx_choose("calibration", TIER ? 6 : 3), k = symx_choose("times", 3);
    const double dt[3][2] = {{1., 1.}, {0.5, 0.25}, {0.125, 2.}};
    const double scale = k == 0 ? 1. : k == 1 ? 300. : 0.5;
    Eigen::Vector3d dv; double a[3], b[3], c[3], g;
    for (int q = 0; q < 3; ++q) { dv[q] = S("dv"); a[q] = S("a"); b[q] = S("b"); c[q] = S("c"); }
    g = symx_f64_range("g", 0., 20.);
    const Q4 mr(Q(i)), cr(Q(j));
    ceres::CostFunction* f = AccelerationCostFunction3D::CreateAutoDiffCostFunction(scale, dv, dt[k][0], dt[k][1]);
    double r[3];
    Evaluate(f, {mr.v, a, b, c, &g, cr.v}, r);
    const Eigen::Vector3d measured = (Q(i) * Q(j)).toRotationMatrix() * dv;
    for (int q = 0; q < 3; ++q) {
      const double moved = (c[q] - b[q]) / dt[k][1] - (b[q] - a[q]) / dt[k][0];
      const double fall = q == 2 ? g * 0.5 * (dt[k][0] + dt[k][1]) : 0.;
      symx_assert(Near(r[q] / scale, measured[q] - fall - moved, 1e-6), "acceleration residual is measured minus gravity minus observed change of velocity");
    }
    delete f;
  } else if (kind == 5) {
    const int i = symx_choose("start", TIER ? 6 : 4), j = symx_choose("calibration", TIER ? 6 : 3), k = symx_choose("scale", TIER ? 2 : 1);
    const double scale = k == 0 ? 300. : 1.;
    const Q4 cr(Q(j));
    double r[3];
    // the measured rotation, seen in the tracking frame, takes the start to the end
    const int m = symx_choose("turn", TIER ? 4 : 2);
    ceres::CostFunction* f = RotationCostFunction3D::CreateAutoDiffCostFunction(scale, Q(m));
    const Eigen::Quaterniond in_tracking = Q(j) * Q(m) * Q(j).conjugate();
    const Q4 sr(Q(i)), er(Q(i) * in_tracking);
    Evaluate(f, {sr.v, er.v, cr.v}, r);
    for (int q = 0; q < 3; ++q) symx_assert(Near(r[q] / scale, 0., 1e-9), "no residual where orientation and IMU agree");
    Eigen::Quaterniond off; off.w() = symx_f64_range("ow", -1., 1.); off.x() = symx_f64_range("ox", -1., 1.); off.y() = symx_f64_range("oy", -1., 1.); off.z() = symx_f64_range("oz", -1., 1.);
    const Q4 other(off);
    Evaluate(f, {sr.v, other.v, cr.v}, r);
    const Eigen::Quaterniond error = off.conjugate() * (Q(i) * in_tracking);
    const Eigen::Vector3d imaginary = error.vec();
    for (int q = 0; q < 3; ++q) symx_assert(Near(r[q] / scale, imaginary[q], 1e-9), "rotation residual is the imaginary part of the remaining turn");
    delete f;
  } else {
    // priors of scan matching
    const int i = symx_choose("target", 6), k = symx_choose("scale", 3);
    const double scale = k == 0 ? 1. : k == 1 ? 40. : 0.5;
    double w[4]; for (int q = 0; q < 4; ++q) w[q] = symx_f64_range("w", -1., 1.);
    const Q4 target(Q(i));
    double product[4];
    common::QuaternionProduct(target.v, w, product);
    const Eigen::Quaterniond p = Q(i) * Eigen::Quaterniond(w[0], w[1], w[2], w[3]);
    symx_assert(Near(product[0], p.w(), 1e-12) && Near(product[1], p.x(), 1e-12) && Near(product[2], p.y(), 1e-12) && Near(product[3], p.z(), 1e-12), "quaternion product");
    double r[3];
    ceres::CostFunction* f = scan_matching::RotationDeltaCostFunctor3D::CreateAutoDiffCostFunction(scale, Q(i));
    Evaluate(f, {w}, r);
    const Eigen::Quaterniond error = Q(i).inverse() * Eigen::Quaterniond(w[0], w[1], w[2], w[3]);
    for (int q = 0; q < 3; ++q) { const double v = error.vec()[q]; symx_assert(Near(r[q], scale * v, 1e-9), "rotation prior is the imaginary part of the turn away from the target"); }
    delete f;
    double t[3], to[3]; for (int q = 0; q < 3; ++q) { t[q] = S("t"); to[q] = S("to"); }
    f = scan_matching::TranslationDeltaCostFunctor3D::CreateAutoDiffCostFunction(scale, Eigen::Vector3d(to[0], to[1], to[2]));
    Evaluate(f, {t}, r);
    for (int q = 0; q < 3; ++q) symx_assert(Near(r[q], scale * (t[q] - to[q]), 1e-9), "3D translation prior is the distance from the target");
    delete f;
    f = scan_matching::TranslationDeltaCostFunctor2D::CreateAutoDiffCostFunction(scale, Eigen::Vector2d(to[0], to[1]));
    Evaluate(f, {t}, r);
    for (int q = 0; q < 2; ++q) symx_assert(Near(r[q], scale * (t[q] - to[q]), 1e-9), "2D translation prior is the distance from the target");
    delete f;
    f = scan_matching::RotationDeltaCostFunctor2D::CreateAutoDiffCostFunction(scale, to[2]);
    Evaluate(f, {t}, r);
    symx_assert(Near(r[0], scale * (t[2] - to[2]), 1e-9), "2D rotation prior is the angle from the target");
    delete f;
  }
  symx_reach("end");
}
