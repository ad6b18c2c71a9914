//@ time=250,800 parts=k:2
//# Interpolation between two stored transforms is the linear blend of the translations, stays between them and is monotone in time; rotations start at the first and end at the second.
//b k=0: end times 1 s, 2 us or 3 days apart, symbolic translations, 4 lookup times; k=1: fixed translations, symbolic lookup time in a 1 s interval
#include "symx.h"
#include "cartographer/transform/transform_interpolation_buffer.h"
using namespace cartographer;
using namespace cartographer::transform;
static common::Time T(int64_t t) { return common::FromUniversal(t); }
static Rigid3d At(double x, double angle = 0.) { return Rigid3d(Eigen::Vector3d(x, -2. * x, 3.), Eigen::Quaterniond(Eigen::AngleAxisd(angle, Eigen::Vector3d::UnitZ()))); }
extern "C" void symx_main() {
  const int k = symx_choose("k", 2);
  TransformInterpolationBuffer buffer;
  const int64_t t0 = 5000000000ll;
  if (k == 0) {
    const double a = symx_f64_range("a", -100., 100.), b = symx_f64_range("b", -100., 100.);
    static const int64_t kLength[3] = {10000000, 20, 2592000000000ll};
    const int64_t length = kLength[symx_choose("length", 3)];
    buffer.Push(T(t0 - 10000000), At(-7.)); buffer.Push(T(t0), At(a)); buffer.Push(T(t0 + length), At(b)); buffer.Push(T(t0 + 2 * length), At(9.));
    const int which = symx_choose("q", 4);
    const int64_t q = which == 0 ? 1 : which == 1 ? length / 4 : which == 2 ? length / 2 : length - 1;
    const Rigid3d r = buffer.Lookup(T(t0 + q));
    const double want = a + (b - a) * ((double)q / length), e = r.translation().x() - want, f = r.translation().y() + 2. * want, g = r.translation().z() - 3.;
    symx_assert(e <= 1e-9 && e >= -1e-9 && f <= 1e-9 && f >= -1e-9 && g <= 1e-9 && g >= -1e-9, "interpolation is linear in time");
  } else if (k == 1) {
    const int q = symx_irange("q", 0, 10000000), q2 = symx_irange("q2", 0, 10000000);
    symx_assume(q <= q2);
    buffer.Push(T(t0), At(-4.)); buffer.Push(T(t0 + 10000000), At(12.)); buffer.Push(T(t0 + 20000000), At(12.));
    const double v = buffer.Lookup(T(t0 + q)).translation().x(), v2 = buffer.Lookup(T(t0 + q2)).translation().x();
    const double e = v - (-4. + 16. * (q / 1e7));
    symx_assert(e <= 1e-9 && e >= -1e-9, "interpolation is linear in time");
    symx_assert(v >= -4. - 1e-9 && v <= 12. + 1e-9 && v <= v2 + 1e-9, "interpolation stays between its neighbours and is monotone");
    buffer.Push(T(t0 + 30000000), At(12., 1.2));
    const Rigid3d s = buffer.Lookup(T(t0 + 20000000)), t = buffer.Lookup(T(t0 + 30000000)), m = buffer.Lookup(T(t0 + 25000000));
    const Eigen::Quaterniond half(Eigen::AngleAxisd(0.6, Eigen::Vector3d::UnitZ()));
    symx_assert(s.rotation().w() == 1. && t.rotation().angularDistance(Eigen::Quaterniond(Eigen::AngleAxisd(1.2, Eigen::Vector3d::UnitZ()))) < 1e-6 && m.rotation().angularDistance(half) < 1e-6, "rotations blend from the first to the second");
  }
  symx_reach("end");
}
