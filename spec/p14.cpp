// Reference semantics of the rotation, pose and twist conversions.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <cmath>
#include <vector>
#include <sot/core/matrix-geometry.hh>
namespace spec {
using dynamicgraph::Vector;
using dynamicgraph::Matrix;
using dynamicgraph::Entity;
using namespace dynamicgraph::sot;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;
template <typename A, typename B> struct Unary { typedef A Tin; typedef B Tout; };

// R = Rz(yaw) Ry(pitch) Rx(roll)
inline M3 rot_(const V3& rpy) {
  double cr = cos(rpy(0)), sr = sin(rpy(0)), cp = cos(rpy(1)), sp = sin(rpy(1)), cy = cos(rpy(2)), sy = sin(rpy(2));
  M3 R;
  R << cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr,
       sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr,
       -sp,     cp * sr,                cp * cr;
  return R;
}
inline V3 rpy_(const M3& R) {
  V3 ypr = R.eulerAngles(2, 1, 0), r;
  r << ypr(2), ypr(1), ypr(0);
  return r;
}
inline M3 ofquat_(double x, double y, double z, double w) {
  M3 R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
       2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
       2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}
inline M3 linear_(const MatrixHomogeneous& M) {
  M3 R;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = M(i, j);
  return R;
}
inline void set_(MatrixHomogeneous& M, const M3& R, double x, double y, double z) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = R(i, j);
  M(0, 3) = x; M(1, 3) = y; M(2, 3) = z;
}
inline V3 utheta_(const M3& R) {
  Eigen::AngleAxisd a(R);
  return a.angle() * a.axis();
}

template <typename M> struct Inverser : Unary<M, M> {
  void operator()(const M& m, M& r) const { r = m.inverse(); }
};
template struct Inverser<Matrix>;
template struct Inverser<MatrixHomogeneous>;
template struct Inverser<MatrixTwist>;
struct InverserRotation : Unary<M3, M3> {
  void operator()(const M3& m, M3& r) const { M3 x; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x(i, j) = m(j, i); r = x; }
};
struct InverserQuaternion : Unary<VectorQuaternion, VectorQuaternion> {
  void operator()(const VectorQuaternion& m, VectorQuaternion& r) const { VectorQuaternion q(m.w(), -m.x(), -m.y(), -m.z()); r = q; }
};
struct MatrixHomoToPoseUTheta : Unary<MatrixHomogeneous, Vector> {
  void operator()(const MatrixHomogeneous& M, Vector& r) {
    V3 u = utheta_(linear_(M));
    Vector x(6);
    for (int i = 0; i < 3; i++) { x(i) = M(i, 3); x(3 + i) = u(i); }
    r = x;
  }
};
// the matrix of u -> v x u gives back v
struct SkewSymToVector : Unary<Matrix, Vector> {
  void operator()(const Matrix& M, Vector& r) { Vector x(3); x << M(2, 1), M(0, 2), M(1, 0); r = x; }
};
// Rodrigues
struct PoseUThetaToMatrixHomo : Unary<Vector, MatrixHomogeneous> {
  void valid_op_(const Vector& v, MatrixHomogeneous& res) { assume(v.size() == 6); }
  void operator()(const Vector& v, MatrixHomogeneous& res) {
    double ux = v(3), uy = v(4), uz = v(5), th = sqrt(ux * ux + uy * uy + uz * uz);
    M3 R = M3::Identity();
    if (th > 0) {
      double x = ux / th, y = uy / th, z = uz / th, c = cos(th), s = sin(th), d = 1 - c;
      R << c + d * x * x, d * x * y - s * z, d * x * z + s * y,
           d * x * y + s * z, c + d * y * y, d * y * z - s * x,
           d * x * z - s * y, d * y * z + s * x, c + d * z * z;
    }
    set_(res, R, v(0), v(1), v(2));
  }
};
struct SE3VectorToMatrixHomo : Unary<Vector, MatrixHomogeneous> {
  void operator()(const Vector& v, MatrixHomogeneous& res) {
    for (int i = 0; i < 3; i++) { res(i, 3) = v(i); for (int j = 0; j < 3; j++) res(i, j) = v(3 + 3 * i + j); }
  }
};
struct MatrixHomoToSE3Vector : Unary<MatrixHomogeneous, Vector> {
  void operator()(const MatrixHomogeneous& M, Vector& r) {
    Vector x(12);
    for (int i = 0; i < 3; i++) { x(i) = M(i, 3); for (int j = 0; j < 3; j++) x(3 + 3 * i + j) = M(i, j); }
    r = x;
  }
};
struct PoseQuaternionToMatrixHomo : Unary<Vector, MatrixHomogeneous> {
  void valid_op_(const Vector& v, MatrixHomogeneous& res) { assume(v.size() == 7); }
  void operator()(const Vector& v, MatrixHomogeneous& res) {
    set_(res, ofquat_(v(3), v(4), v(5), v(6)), v(0), v(1), v(2));
  }
};
struct MatrixHomoToPoseQuaternion : Unary<MatrixHomogeneous, Vector> {
  void operator()(const MatrixHomogeneous& M, Vector& r) {
    VectorQuaternion q(linear_(M));
    Vector x(7);
    x << M(0, 3), M(1, 3), M(2, 3), q.x(), q.y(), q.z(), q.w();
    r = x;
  }
};
struct MatrixHomoToPoseRollPitchYaw : Unary<MatrixHomogeneous, Vector> {
  void operator()(const MatrixHomogeneous& M, Vector& r) {
    V3 u = rpy_(linear_(M));
    Vector x(6);
    for (int i = 0; i < 3; i++) { x(i) = M(i, 3); x(3 + i) = u(i); }
    r = x;
  }
};
struct PoseRollPitchYawToMatrixHomo : Unary<Vector, MatrixHomogeneous> {
  void operator()(const Vector& v, MatrixHomogeneous& res) {
    set_(res, rot_(V3(v(3), v(4), v(5))), v(0), v(1), v(2));
  }
};
struct PoseRollPitchYawToPoseUTheta : Unary<Vector, Vector> {
  void operator()(const Vector& v, Vector& r) {
    V3 u = utheta_(rot_(V3(v(3), v(4), v(5))));
    Vector x(6);
    for (int i = 0; i < 3; i++) { x(i) = v(i); x(3 + i) = u(i); }
    r = x;
  }
};
struct HomoToMatrix : Unary<MatrixHomogeneous, Matrix> {
  void operator()(const MatrixHomogeneous& M, Matrix& r) {
    Matrix x(4, 4);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) x(i, j) = M(i, j);
    r = x;
  }
};
struct MatrixToHomo : Unary<Matrix, MatrixHomogeneous> {
  void operator()(const Eigen::Matrix<double, 4, 4>& M, MatrixHomogeneous& r) { r = M; }
};
inline void adjoint_(const MatrixHomogeneous& M, MatrixTwist& r) {
  double x = M(0, 3), y = M(1, 3), z = M(2, 3);
  for (int j = 0; j < 3; j++) {
    // column j of t x R
    r(0, 3 + j) = y * M(2, j) - z * M(1, j);
    r(1, 3 + j) = z * M(0, j) - x * M(2, j);
    r(2, 3 + j) = x * M(1, j) - y * M(0, j);
    for (int i = 0; i < 3; i++) { r(i, j) = M(i, j); r(3 + i, 3 + j) = M(i, j); r(3 + i, j) = 0; }
  }
}
struct HomoToTwist : Unary<MatrixHomogeneous, MatrixTwist> {
  void operator()(const MatrixHomogeneous& M, MatrixTwist& r) { adjoint_(M, r); }
};
inline void buildFrom(const MatrixHomogeneous& M, MatrixTwist& r) { adjoint_(M, r); }
struct HomoToRotation : Unary<MatrixHomogeneous, M3> {
  void operator()(const MatrixHomogeneous& M, M3& r) { r = linear_(M); }
};
struct MatrixHomoToPose : Unary<MatrixHomogeneous, Vector> {
  void operator()(const MatrixHomogeneous& M, Vector& r) { Vector x(3); x << M(0, 3), M(1, 3), M(2, 3); r = x; }
};
struct RPYToMatrix : Unary<V3, M3> {
  void operator()(const V3& v, M3& r) { r = rot_(v); }
};
struct MatrixToRPY : Unary<M3, V3> {
  void operator()(const M3& m, V3& r) { r = rpy_(m); }
};
struct RPYToQuaternion : Unary<V3, VectorQuaternion> {
  void operator()(const V3& v, VectorQuaternion& r) { VectorQuaternion q(rot_(v)); r = q; }
};
struct QuaternionToRPY : Unary<VectorQuaternion, V3> {
  void operator()(const VectorQuaternion& q, V3& r) { r = rpy_(ofquat_(q.x(), q.y(), q.z(), q.w())); }
};
struct QuaternionToMatrix : Unary<VectorQuaternion, M3> {
  void operator()(const VectorQuaternion& q, M3& r) { r = ofquat_(q.x(), q.y(), q.z(), q.w()); }
};
struct MatrixToQuaternion : Unary<M3, VectorQuaternion> {
  void operator()(const M3& m, VectorQuaternion& r) { VectorQuaternion q(m); r = q; }
};
struct MatrixToUTheta : Unary<M3, VectorUTheta> {
  void operator()(const M3& m, VectorUTheta& r) { VectorUTheta u(m); r = u; }
};
struct UThetaToQuaternion : Unary<VectorUTheta, VectorQuaternion> {
  void operator()(const VectorUTheta& u, VectorQuaternion& r) {
    double c = cos(u.angle() / 2), s = sin(u.angle() / 2);
    VectorQuaternion q(c, s * u.axis()(0), s * u.axis()(1), s * u.axis()(2));
    r = q;
  }
};
class VectorToRotation {
 public:
  enum sotAxis { AXIS_X, AXIS_Y, AXIS_Z };
  unsigned int size;
  std::vector<sotAxis> axes;
  // the product of the elementary rotations, in order
  M3& computeRotation(const Vector& angles, M3& res) {
    M3 R = M3::Identity();
    for (unsigned int i = 0; i < size; i++) {
      double c = cos(angles(i)), s = sin(angles(i));
      M3 A = M3::Identity();
      if (axes[i] == AXIS_X) A << 1, 0, 0, 0, c, -s, 0, s, c;
      else if (axes[i] == AXIS_Y) A << c, 0, s, 0, 1, 0, -s, 0, c;
      else if (axes[i] == AXIS_Z) A << c, -s, 0, s, c, 0, 0, 0, 1;
      R = R * A;
    }
    res = R;
    return res;
  }
};
}
