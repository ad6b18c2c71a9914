//@ time=250,800 parts=kind:6
//# Composition, inversion and application of 2D and 3D rigid transforms agree (associativity, inverse, identity, homomorphism on points), casts and 2D/3D embedding keep the motion, and protos keep every bit.
//b rotations from fixed sets (2D: 6 angles; 3D: 6 quaternions incl. half turns), translations symbolic within 100 m, tolerance 1e-9 (float 1e-2); protos with any double
#include "symx.h"
#include "cartographer/transform/rigid_transform.h"
#include "cartographer/transform/transform.h"
using namespace cartographer;
using namespace cartographer::transform;
static double S(const char* n) { return symx_f64_range(n, -100., 100.); }
static Eigen::Vector2d V2(const char* n) { Eigen::Vector2d r; r.x() = S(n); r.y() = S(n); return r; }
static Eigen::Vector3d V3(const char* n) { Eigen::Vector3d r; r.x() = S(n); r.y() = S(n); r.z() = S(n); return r; }
static bool Near(double a, double b, double t = 1e-9) { const double e = a - b; return e <= t && e >= -t; }
template <class V> static bool NearV(const V& a, const V& b, double t = 1e-9) { bool ok = true; for (int i = 0; i < a.size(); ++i) ok = ok && Near(a[i], b[i], t); return ok; }
static bool Same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static const double kAngles[6] = {0., 0.7, -2.1, 3.1415, 1.5707963267948966, -0.001};
static Eigen::Quaterniond Q(int i) {
  switch (i) {
    case 0: return Eigen::Quaterniond::Identity();
    case 1: return Eigen::Quaterniond(0.5, -0.5, 0.5, 0.5);
    case 2: return Eigen::Quaterniond(0.6, 0., 0.8, 0.);
    case 3: return Eigen::Quaterniond(-0.6, 0., 0., 0.8);
    case 4: return Eigen::Quaterniond(0., 0.6, 0.8, 0.);
    default: return Eigen::Quaterniond(0.5, 0.1, -0.7, 0.5);
  }
}
extern "C" void symx_main() {
  const int kind = symx_choose("kind", 6);
  if (kind == 0) {
    const int i = symx_choose("a", 6), j = symx_choose("b", 6);
    const Rigid2d a(V2("a"), kAngles[i]), b(V2("b"), kAngles[j]);
    const Eigen::Vector2d p = V2("p");
    symx_assert(NearV((a * b) * p, a * (b * p)), "2D composition applied to a point");
    symx_assert(NearV(Eigen::Vector2d(a.inverse() * (a * p)), p) && NearV(Eigen::Vector2d(a * (a.inverse() * p)), p), "2D inverse undoes the motion");
    symx_assert(NearV(Eigen::Vector2d((a * a.inverse()).translation()), Eigen::Vector2d(0., 0.)) && Near((a * a.inverse()).normalized_angle(), 0.), "2D motion times inverse is the identity");
    const double c = std::cos(kAngles[i]), s = std::sin(kAngles[i]);
    symx_assert(Near((a * p).x(), c * p.x() - s * p.y() + a.translation().x()) && Near((a * p).y(), s * p.x() + c * p.y() + a.translation().y()), "2D motion rotates then translates");
    symx_assert((Rigid2d() * p) == p && (Rigid2d::Identity() * a).translation() == a.translation(), "2D identity changes nothing");
    const double total = kAngles[i] + kAngles[j], n = (a * b).normalized_angle();
    symx_assert(n >= -M_PI && n <= M_PI && Near(std::cos(n), std::cos(total)) && Near(std::sin(n), std::sin(total)), "2D angles add up");
    const Rigid2f f = a.cast<float>();
    symx_assert(Near(f.translation().x(), a.translation().x(), 1e-5) && Near(f.translation().y(), a.translation().y(), 1e-5) && Near(f.rotation().angle(), kAngles[i], 1e-6), "cast keeps the motion");
  } else if (kind == 1) {
    const int i = symx_choose("a", 6), j = symx_choose("b", 6);
    // one symbolic coordinate of each vector at a time (thorough: all)
    const int axis = symx_choose("axis", 3);
    auto vec = [&](const char* n, double x, double y, double z) { if (TIER) return V3(n); Eigen::Vector3d v(x, y, z); v[axis] = S(n); return v; };
    const Eigen::Vector3d ta = vec("a", 3., -70., 12.), tb = vec("b", -8., 20., 0.5), p = vec("p", 33., 4., -90.);
    const Rigid3d a(ta, Q(i)), b(tb, Q(j));
    const Eigen::Vector3d l = (a * b) * p, r = a * (b * p);
    for (int k = 0; k < 3; ++k) symx_assert(Near(l[k], r[k], 1e-8), "3D composition applied to a point");
  } else if (kind == 2) {
    const int i = symx_choose("a", 6);
    const Rigid3d a(V3("a"), Q(i));
    const Eigen::Vector3d p = V3("p");
    const Eigen::Vector3d l = a.inverse() * (a * p), l2 = a * (a.inverse() * p);
    for (int k = 0; k < 3; ++k) symx_assert(Near(l[k], p[k], 1e-8), "3D inverse undoes the motion");
    for (int k = 0; k < 3; ++k) symx_assert(Near(l2[k], p[k], 1e-8), "3D inverse undoes the motion");
    const Rigid3d id = a * a.inverse();
    symx_assert(NearV(Eigen::Vector3d(id.translation()), Eigen::Vector3d(0., 0., 0.), 1e-8) && id.rotation().angularDistance(Eigen::Quaterniond::Identity()) < 1e-6, "3D motion times inverse is the identity");
    const Eigen::Matrix3d R = Q(i).toRotationMatrix();
    symx_assert(NearV(Eigen::Vector3d(a * p), Eigen::Vector3d(R * p + a.translation()), 1e-8), "3D motion rotates then translates");
    symx_assert((Rigid3d() * p) == p && (Rigid3d::Identity() * a).translation() == a.translation(), "3D identity changes nothing");
    const Rigid3f f = a.cast<float>();
    symx_assert(NearV(Eigen::Vector3d(f.translation().cast<double>()), Eigen::Vector3d(a.translation()), 1e-5), "cast keeps the motion");
    const Rigid3d t = Rigid3d::Translation(Eigen::Vector3d(p)), r = Rigid3d::Rotation(Q(i));
    symx_assert(t.translation() == p && t.rotation().w() == 1. && r.translation() == Eigen::Vector3d(0., 0., 0.) && r.rotation().coeffs() == Q(i).coeffs(), "pure translation and rotation");
  } else if (kind == 3) {
    // planar motions: 2D -> 3D -> 2D
    const int i = symx_choose("a", 6);
    const Rigid2d a(V2("a"), kAngles[i]);
    const Rigid3d e = Embed3D(a);
    const Eigen::Vector3d p = V3("p");
    const Eigen::Vector2d q = a * Eigen::Vector2d(p.x(), p.y());
    symx_assert(NearV(Eigen::Vector3d(e * p), Eigen::Vector3d(q.x(), q.y(), p.z()), 1e-8), "embedding acts in the plane");
    const Rigid2d back = Project2D(e);
    symx_assert(NearV(Eigen::Vector2d(back.translation()), Eigen::Vector2d(a.translation())) && Near(back.normalized_angle(), a.normalized_angle()), "projection inverts embedding");
    const Rigid3d tilted(V3("t"), Eigen::AngleAxisd(kAngles[i], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(-0.4, Eigen::Vector3d::UnitX()));
    const Rigid2d flat = Project2D(tilted);
    symx_assert(flat.translation().x() == tilted.translation().x() && flat.translation().y() == tilted.translation().y() && Near(flat.normalized_angle(), a.normalized_angle()), "projection keeps position and yaw");
  } else if (kind == 4) {
    // protos keep every bit
    const Eigen::Vector3d t{symx_f64("x"), symx_f64("y"), symx_f64("z")};
    const Rigid3d a(t, Eigen::Quaterniond{symx_f64("qw"), symx_f64("qx"), symx_f64("qy"), symx_f64("qz")});
    const Rigid3d b = ToRigid3(ToProto(a));
    bool ok = true;
    for (int k = 0; k < 3; ++k) ok = ok && Same(a.translation()[k], b.translation()[k]);
    for (int k = 0; k < 4; ++k) ok = ok && Same(a.rotation().coeffs()[k], b.rotation().coeffs()[k]);
    symx_assert(ok, "3D proto keeps every bit");
    const int ai = symx_choose("a", 6);
    const Eigen::Vector2d uv{symx_f64("u"), symx_f64("v")};
    const Rigid2d c(uv, kAngles[ai]);
    const Rigid2d d = ToRigid2(ToProto(c));
    symx_assert(Same(c.translation().x(), d.translation().x()) && Same(c.translation().y(), d.translation().y()) && Same(c.rotation().angle(), d.rotation().angle()), "2D proto keeps every bit");
    const Eigen::Vector3f f{symx_f32("fx"), symx_f32("fy"), symx_f32("fz")};
    const Eigen::Vector3f g = ToEigen(ToProto(f));
    bool same = true; for (int k = 0; k < 3; ++k) { uint32_t x, y; memcpy(&x, &f[k], 4); memcpy(&y, &g[k], 4); same = same && x == y; }
    symx_assert(same, "float vector proto keeps every bit");
    const Eigen::Vector4f f4{symx_f32("f0"), symx_f32("f1"), symx_f32("f2"), symx_f32("f3")}, g4 = ToEigen(ToProto(f4));
    same = true; for (int k = 0; k < 4; ++k) { uint32_t x, y; memcpy(&x, &f4[k], 4); memcpy(&y, &g4[k], 4); same = same && x == y; }
    symx_assert(same, "four-vector proto keeps every bit");
    const Eigen::Vector2d v2 = ToEigen(ToProto(Eigen::Vector2d(t.x(), t.y()))); const Eigen::Vector3d v3 = ToEigen(ToProto(t)); const Eigen::Quaterniond q = ToEigen(ToProto(Eigen::Quaterniond(a.rotation())));
    symx_assert(Same(v2.x(), t.x()) && Same(v2.y(), t.y()) && Same(v3.x(), t.x()) && Same(v3.y(), t.y()) && Same(v3.z(), t.z()) && Same(q.w(), a.rotation().w()) && Same(q.x(), a.rotation().x()) && Same(q.y(), a.rotation().y()) && Same(q.z(), a.rotation().z()), "vector and quaternion protos keep every bit");
  } else {
    // rotation angle and angle-axis vector
    const int i = symx_choose("a", 6);
    const Eigen::Quaterniond q = Q(i).normalized(), minus(-q.w(), -q.x(), -q.y(), -q.z());
    const double angle = GetAngle(Rigid3d::Rotation(q));
    symx_assert(angle >= 0. && angle <= M_PI + 1e-12 && angle == GetAngle(Rigid3d::Rotation(minus)) && Near(std::cos(angle / 2.), q.w() < 0 ? -q.w() : q.w()), "the rotation angle is the smaller one and independent of the sign of the quaternion");
    const Eigen::Vector3d v = RotationQuaternionToAngleAxisVector(q), w = RotationQuaternionToAngleAxisVector(minus);
    symx_assert(Near(v.norm(), angle) && (Near(angle, M_PI) || NearV(v, w)), "the angle-axis vector has the length of the angle");
    const Eigen::Quaterniond back = AngleAxisVectorToRotationQuaternion(v);
    symx_assert(back.angularDistance(q) < 1e-6, "the angle-axis vector gives back the rotation");
    const double s = symx_f64_range("s", -4e-5, 4e-5);
    const int axis = symx_choose("axis", 3);
    Eigen::Vector3d small = Eigen::Vector3d::Zero(); small[axis] = s;
    const Eigen::Quaterniond sq = AngleAxisVectorToRotationQuaternion(small);
    Eigen::Vector3d half = 0.5 * small;
    symx_assert(Near(sq.w(), 1., 1e-8) && Near(sq.x(), half.x(), 1e-12) && Near(sq.y(), half.y(), 1e-12) && Near(sq.z(), half.z(), 1e-12), "small rotations");
  }
  symx_reach("end");
}
