#ifndef VSTUB_PIN_LG
#define VSTUB_PIN_LG
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
template <class D>
struct LieGroupBase {
  template <class Q, class V, class O>
  void integrate(const Eigen::MatrixBase<Q> &, const Eigen::MatrixBase<V> &, const Eigen::MatrixBase<O> &) const {}
  template <class Q, class P>
  Eigen::Matrix<double, 6, 1> difference(const Eigen::MatrixBase<Q> &, const Eigen::MatrixBase<P> &) const { return Eigen::Matrix<double, 6, 1>::Zero(); }
  template <class Q, class P, class O>
  void difference(const Eigen::MatrixBase<Q> &, const Eigen::MatrixBase<P> &, const Eigen::MatrixBase<O> &) const {}
  template <int arg, class Q, class P, class J>
  void dDifference(const Eigen::MatrixBase<Q> &, const Eigen::MatrixBase<P> &, const Eigen::MatrixBase<J> &) const {}
  template <class Q, class P, class O>
  void squaredDistance(const Eigen::MatrixBase<Q> &, const Eigen::MatrixBase<P> &, const Eigen::MatrixBase<O> &) const {}
};
template <int N, class S> struct VectorSpaceOperationTpl : LieGroupBase<VectorSpaceOperationTpl<N, S> > {};
template <int N, class S> struct SpecialOrthogonalOperationTpl : LieGroupBase<SpecialOrthogonalOperationTpl<N, S> > {};
template <int N, class S> struct SpecialEuclideanOperationTpl : LieGroupBase<SpecialEuclideanOperationTpl<N, S> > {
  typedef Eigen::Matrix<S, 7, 1> ConfigVector_t;
  typedef Eigen::Matrix<S, 6, 1> TangentVector_t;
};
template <class A, class B> struct CartesianProductOperation : LieGroupBase<CartesianProductOperation<A, B> > {};
template <class D> struct SE3Base_;
struct Force {
  Eigen::Matrix<double, 6, 1> d;
  template <class V> explicit Force(const Eigen::MatrixBase<V> &v) : d(v) {}
  Force() {}
  const Eigen::Matrix<double, 6, 1> &toVector() const { return d; }
  Eigen::Vector3d linear() const { return d.head<3>(); }
  Eigen::Vector3d angular() const { return d.tail<3>(); }
};
struct Motion {
  Eigen::Matrix<double, 6, 1> d;
  template <class V> explicit Motion(const Eigen::MatrixBase<V> &v) : d(v) {}
  Motion() {}
  const Eigen::Matrix<double, 6, 1> &toVector() const { return d; }
};
struct SE3 {
  SE3(const Eigen::Matrix4d &m) : R(m.topLeftCorner<3, 3>()), t(m.block<3, 1>(0, 3)) {}
  SE3(const Eigen::Quaterniond &q, const Eigen::Vector3d &p) : R(q.toRotationMatrix()), t(p) {}
  Eigen::Matrix3d R; Eigen::Vector3d t;
  SE3(const Eigen::Matrix3d &r, const Eigen::Vector3d &p) : R(r), t(p) {}
  Force act(const Force &f) const {
    Force o; o.d.head<3>() = R * f.d.head<3>(); Eigen::Vector3d a = R * f.d.tail<3>(); Eigen::Vector3d l = o.d.head<3>(); o.d.tail<3>() = a + t.cross(l); return o; }
  Motion act(const Motion &m) const { Motion o; Eigen::Vector3d w = R * m.d.tail<3>(); Eigen::Vector3d v = R * m.d.head<3>(); o.d.head<3>() = v + t.cross(w); o.d.tail<3>() = w; return o; }
  Force actInv(const Force &f) const { Force o; Eigen::Vector3d l = f.d.head<3>(); Eigen::Vector3d a = f.d.tail<3>(); o.d.head<3>() = R.transpose() * l; o.d.tail<3>() = R.transpose() * (a - t.cross(l)); return o; }
  Motion actInv(const Motion &m) const { Motion o; Eigen::Vector3d w = m.d.tail<3>(); Eigen::Vector3d v = m.d.head<3>(); o.d.head<3>() = R.transpose() * (v - t.cross(w)); o.d.tail<3>() = R.transpose() * w; return o; }
};
}
#endif
