// Reference semantics of features: dimension, error, derivative of the error and Jacobian
// keep the same selected rows of the full quantities.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/feature-pose.hh>
#include <sot/core/flags.hh>
#include <pinocchio/multibody/liegroup/liegroup.hpp>
#include <sot/core/matrix-geometry.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::Signal;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Vector;
using namespace dynamicgraph::sot;
using dynamicgraph::sot::FeatureReferenceHelper;

class FeatureAbstract : public Entity {
 public:
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<Vector, int> errordotSIN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  FeatureAbstract(const std::string& n);
  virtual bool isReferenceSet() const = 0;
  virtual dynamicgraph::sot::FeatureAbstract* getReferenceAbstract() = 0;
  // minus the selected components of the derivative of the reference, zero without one
  virtual Vector& computeErrorDot(Vector& e, int t) {
    const Flags& fl = selectionSIN(t);
    int n = dimensionSOUT(t), k = 0;
    e.resize(n);
    if (!isReferenceSet() || !getReferenceAbstract()->errordotSIN.isPlugged()) { e.setZero(); return e; }
    const Vector& d = getReferenceAbstract()->errordotSIN(t);
    for (int i = 0; i < d.size() && k < n; i++) if (fl(i)) { e(k) = -d(i); k++; }
    if (k < n) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "");
    return e;
  }
};

class Feature1D {
 public:
  SignalPtr<Vector, int> errorSIN;
  SignalPtr<Matrix, int> jacobianSIN;
  unsigned int& getDimension(unsigned int& dim, int) { return dim = 1; }
  Vector& computeError(Vector& res, int t) {
    res.resize(1);
    res(0) = errorSIN(t).dot(errorSIN(t)) * .5;
    return res;
  }
  void valid_computeJacobian_(Matrix&, int t) { assume_eq(errorSIN(t).size(), jacobianSIN(t).rows()); }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Matrix& Jq = jacobianSIN(t); const Vector& e = errorSIN(t);
    int n = Jq.rows(), m = Jq.cols();
    J = Matrix::Zero(1, m);
    for (int c = 0; c < m; c++) for (int r = 0; r < n; r++) J(0, c) += e(r) * Jq(r, c);
    return J;
  }
};

class FeatureGeneric {
 public:
  Vector::Index dimensionDefault;
  FeatureGeneric* ptr;
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<Vector, int> errorSIN;
  SignalPtr<Matrix, int> jacobianSIN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  unsigned int& getDimension(unsigned int& dim, int t) {
    if (dimensionDefault == 0) dimensionDefault = errorSIN(t).size();
    const Flags& fl = selectionSIN(t);
    dim = 0;
    for (int i = 0; i < (int)dimensionDefault; i++) if (fl(i)) dim++;
    return dim;
  }
  // the selected components, in order; refuses when there are fewer than the dimension
  Vector& computeError(Vector& res, int t) {
    const Vector& err = errorSIN(t); const Flags& fl = selectionSIN(t);
    int n = dimensionSOUT(t), k = 0;
    res.resize(n);
    if (err.size() < n) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "");
    if (ptr != 0) {
      const Vector& des = ptr->errorSIN(t);
      if (des.size() < n) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "");
      for (int i = 0; i < err.size() && i < des.size() && k < n; i++) if (fl(i)) { res(k) = err(i) - des(i); k++; }
    } else {
      for (int i = 0; i < err.size() && k < n; i++) if (fl(i)) { res(k) = err(i); k++; }
    }
    if (k < n) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "");
    return res;
  }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Matrix& Jq = jacobianSIN(t); const Flags& fl = selectionSIN(t);
    unsigned n = dimensionSOUT(t), k = 0;
    J.resize(n, Jq.cols());
    for (int i = 0; i < Jq.rows() && k < n; i++)
      if (fl(i)) { for (int c = 0; c < Jq.cols(); c++) J(k, c) = Jq(i, c); k++; }
    if (k < n) throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "");
    return J;
  }
};

class FeatureJointLimits {
 public:
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<Vector, int> jointSIN, upperJlSIN, lowerJlSIN;
  SignalTimeDependent<Vector, int> widthJlSINTERN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  unsigned int& getDimension(unsigned int& dim, int t) {
    int n = upperJlSIN(t).size();
    dim = 0;
    for (int i = 0; i < n; i++) if (selectionSIN(t)(i)) dim++;
    return dim;
  }
  void valid_computeWidthJl_(Vector&, const int& t) { assume_eq(lowerJlSIN(t).size(), upperJlSIN(t).size()); }
  Vector& computeWidthJl(Vector& r, const int& t) { r = upperJlSIN(t) - lowerJlSIN(t); return r; }
  // normalised position of each selected joint: -1 at the lower limit, 1 at the upper one
  void valid_computeError_(Vector&, int t) {
    assume_eq(lowerJlSIN(t).size(), jointSIN(t).size());
    assume_eq(upperJlSIN(t).size(), jointSIN(t).size());
    assume_eq(widthJlSINTERN(t).size(), jointSIN(t).size());
  }
  Vector& computeError(Vector& e, int t) {
    const Vector &q = jointSIN(t), &lo = lowerJlSIN(t), &w = widthJlSINTERN(t);
    int n = q.size(), k = 0;
    e.resize(dimensionSOUT(t));
    for (int i = 0; i < n; i++) if (selectionSIN(t)(i)) { e(k) = (q(i) - lo(i)) / w(i) * 2 - 1; k++; }
    return e;
  }
  void valid_computeJacobian_(Matrix&, int t) { assume_eq(widthJlSINTERN(t).size(), jointSIN(t).size()); }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Vector& w = widthJlSINTERN(t);
    int n = jointSIN(t).size(), k = 0;
    J.resize(dimensionSOUT(t), n);
    J.setZero();
    for (int i = 0; i < n; i++)
      if (selectionSIN(t)(i)) { J(k, i) = std::fabs(w(i)) > 1e-3 ? 1 / w(i) : 1; k++; }
    return J;
  }
};

class FeatureVector3 {
 public:
  SignalPtr<Vector, int> vectorSIN, positionRefSIN;
  SignalPtr<MatrixHomogeneous, int> positionSIN;
  SignalPtr<Matrix, int> articularJacobianSIN;
  unsigned int& getDimension(unsigned int& dim, int) { return dim = 3; }
  void valid_() {}
  void valid_computeError_(Vector&, int t) {
    assume_eq(vectorSIN(t).size(), 3); assume_eq(positionRefSIN(t).size(), 3);
  }
  Vector& computeError(Vector& e, int t) {
    MatrixRotation R; R = positionSIN(t).linear();
    e = R * vectorSIN(t);
    e -= positionRefSIN(t);
    return e;
  }
  void valid_computeJacobian_(Matrix&, int t) {
    assume_eq(vectorSIN(t).size(), 3); assume(articularJacobianSIN(t).rows() >= 6);
  }
  // the vector turns with the frame
  Matrix& computeJacobian(Matrix& J, int t) {
    const Matrix& Jq = articularJacobianSIN(t); const Vector& v = vectorSIN(t);
    MatrixRotation R; R = positionSIN(t).linear();
    Matrix S(3, 3);
    S.setZero();
    S(0, 1) = -v(2); S(0, 2) = v(1); S(1, 0) = v(2); S(1, 2) = -v(0); S(2, 0) = -v(1); S(2, 1) = v(0);
    Matrix A(3, 3); A = R * S;
    int n = Jq.cols();
    J.resize(3, n);
    for (int i = 0; i < 3; i++) for (int c = 0; c < n; c++)
      J(i, c) = -(A(i, 0) * Jq(3, c) + A(i, 1) * Jq(4, c) + A(i, 2) * Jq(5, c));
    return J;
  }
};

class FeaturePosture {
 public:
  SignalPtr<Vector, int> state_, posture_, postureDot_;
  std::vector<bool> activeDofs_;
  std::size_t nbActiveDofs_;
  unsigned int& getDimension(unsigned int& dim, int) { dim = nbActiveDofs_; return dim; }
  Vector& computeError(Vector& e, int t) {
    const Vector &q = state_(t), &d = posture_(t);
    int k = 0, n = activeDofs_.size();
    e.resize(nbActiveDofs_);
    for (int i = 0; i < n; i++) if (activeDofs_[i]) { e(k) = q(i) - d(i); k++; }
    return e;
  }
  Vector& computeErrorDot(Vector& e, int t) {
    const Vector& d = postureDot_(t);
    int k = 0, n = activeDofs_.size();
    e.resize(nbActiveDofs_);
    for (int i = 0; i < n; i++) if (activeDofs_[i]) { e(k) = -d(i); k++; }
    return e;
  }
  Matrix& computeJacobian(Matrix&, int) { throw std::runtime_error(""); }
  SignalTimeDependent<Matrix, int> jacobianSOUT;
  // the Jacobian selects the active degrees of freedom, in order; an invalid request changes nothing
  void selectDof(unsigned dofId, bool control) {
    std::size_t n = state_.accessCopy().size();
    if (n != (std::size_t)posture_.accessCopy().size()) throw std::runtime_error("");
    if (dofId >= n) throw ExceptionAbstract(ExceptionAbstract::TOOLS, "");
    if (activeDofs_.size() != n) { activeDofs_ = std::vector<bool>(n, false); nbActiveDofs_ = 0; }
    if (control && !activeDofs_[dofId]) nbActiveDofs_++;
    if (!control && activeDofs_[dofId]) nbActiveDofs_--;
    activeDofs_[dofId] = control;
    Matrix J(Matrix::Zero(nbActiveDofs_, n));
    int k = 0;
    for (std::size_t i = 0; i < activeDofs_.size(); i++) if (activeDofs_[i]) { J(k, i) = 1; k++; }
    jacobianSOUT.setConstant(J);
  }
};

class FeaturePoint6d {
 public:
  enum ComputationFrameType { FRAME_DESIRED, FRAME_CURRENT };
  ComputationFrameType computationFrame_;
  FeaturePoint6d* ptr;
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<MatrixHomogeneous, int> positionSIN;
  SignalPtr<Vector, int> velocitySIN;
  SignalPtr<Matrix, int> articularJacobianSIN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  VectorUTheta error_th_;
  SignalTimeDependent<Vector, int> errorSOUT;
  Eigen::Vector3d v_, omega_, errordot_t_, errordot_th_, Rreftomega_, t_, tref_;
  MatrixRotation R_, Rref_, Rt_, Rreft_;
  Matrix P_, Pinv_;
  double accuracy_;
  void valid_inverseJacobianRodrigues_() {
    assume_eq(P_.rows(), 3); assume_eq(P_.cols(), 3); assume_real(accuracy_, 0, 1);
  }
  // right Jacobian of the exponential map at the rotation vector of the error, and its inverse
  void inverseJacobianRodrigues() {
    double r[3], n = 0;
    for (int i = 0; i < 3; i++) { r[i] = error_th_.angle() * error_th_.axis()(i); n += r[i] * r[i]; }
    P_ = Matrix::Identity(3, 3);
    if (!(n < accuracy_)) {
      double th = std::sqrt(n), s = std::sin(th) * th / n, k = (1 - std::cos(th)) / n;
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) P_(i, j) = r[i] * r[j] * (1 - s) / n;
      for (int i = 0; i < 3; i++) P_(i, i) += s;
      P_(0, 1) += k * r[2]; P_(0, 2) -= k * r[1]; P_(1, 2) += k * r[0];
      P_(1, 0) -= k * r[2]; P_(2, 0) += k * r[1]; P_(2, 1) -= k * r[0];
    }
    Pinv_ = P_.inverse();
  }
  void valid_computeErrordot_(Vector&, int t) { if (ptr != 0) assume_eq(ptr->velocitySIN(t).size(), 6); }
  // the reference moves: only its velocity contributes
  Vector& computeErrordot(Vector& e, int t) {
    if (ptr == 0) { errordot_t_.setZero(); errordot_th_.setZero(); }
    else {
      const Vector& nu = ptr->velocitySIN(t);
      const MatrixHomogeneous &M = positionSIN(t), &Md = ptr->positionSIN(t);
      for (int i = 0; i < 3; i++) { v_(i) = nu(i); omega_(i) = nu(i + 3); }
      R_ = M.linear(); Rref_ = Md.linear();
      t_ = M.translation(); tref_ = Md.translation();
      Rt_ = R_.transpose(); Rreft_ = Rref_.transpose();
      errorSOUT.recompute(t);
      inverseJacobianRodrigues();
      if (computationFrame_ == FRAME_CURRENT) {
        errordot_t_ = Rt_ * v_;
        Rreftomega_ = Rreft_ * omega_;
        errordot_th_ = Pinv_ * Rreftomega_;
      } else {
        errordot_t_ = Rreft_ * (omega_.cross(tref_ - t_) - v_);
        errordot_th_ = -Pinv_ * (Rt_ * omega_);
      }
    }
    const Flags& fl = selectionSIN(t);
    e.resize(dimensionSOUT(t));
    int k = 0;
    for (int i = 0; i < 3; i++) if (fl(i)) { e(k) = errordot_t_(i); k++; }
    for (int i = 3; i < 6; i++) if (fl(i)) { e(k) = errordot_th_(i - 3); k++; }
    return e;
  }
  void valid_() { assume(computationFrame_ == FRAME_DESIRED || computationFrame_ == FRAME_CURRENT); }
  unsigned int& getDimension(unsigned int& dim, int t) {
    dim = 0;
    for (int i = 0; i < 6; i++) if (selectionSIN(t)(i)) dim++;
    return dim;
  }
  // rotation and translation of the current frame with respect to the reference, or the reverse
  Vector& computeError(Vector& e, int t) {
    const Flags& fl = selectionSIN(t);
    const MatrixHomogeneous& M = positionSIN(t);
    MatrixHomogeneous D;
    bool current = computationFrame_ == FRAME_CURRENT;
    if (ptr == 0) { if (current) D = M.inverse(); else D = M; }
    else {
      const MatrixHomogeneous& Md = ptr->positionSIN(t);
      if (current) D = M.inverse(Eigen::Affine) * Md; else D = Md.inverse(Eigen::Affine) * M;
    }
    e.resize(dimensionSOUT(t));
    int k = 0;
    for (int i = 0; i < 3; i++) if (fl(i)) { e(k) = D(i, 3); k++; }
    if (fl(3) || fl(4) || fl(5)) {
      MatrixRotation R; R = D.linear();
      error_th_.fromRotationMatrix(R);
    }
    for (int i = 3; i < 6; i++) if (fl(i)) { e(k) = error_th_.angle() * error_th_.axis()(i - 3); k++; }
    return e;
  }
  void valid_computeJacobian_(Matrix&, int t) { assume_eq(articularJacobianSIN(t).rows(), 6); }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Flags& fl = selectionSIN(t);
    const Matrix& Jq = articularJacobianSIN(t);
    const MatrixHomogeneous& M = positionSIN(t);
    int m = Jq.cols();
    MatrixRotation R, Rd, hdRh; R = M.linear();
    if (ptr != 0) Rd = ptr->positionSIN(t).linear(); else Rd.setIdentity();
    hdRh = Rd.inverse() * R;
    Matrix full(6, m);
    if (computationFrame_ == FRAME_CURRENT) {
      Vector w(3), d(3);
      for (int i = 0; i < 3; i++) { w(i) = -M(i, 3); if (ptr != 0) w(i) = ptr->positionSIN(t)(i, 3) - M(i, 3); }
      d = R.inverse() * w;
      Matrix L(6, 6);
      L.setZero();
      for (int i = 0; i < 3; i++) { L(i, i) = -1; for (int j = 0; j < 3; j++) L(i + 3, j + 3) = -hdRh(i, j); }
      // cross product with the vector to the reference
      L(0, 4) = -d(2); L(0, 5) = d(1); L(1, 3) = d(2); L(1, 5) = -d(0); L(2, 3) = -d(1); L(2, 4) = d(0);
      full = L * Jq;
    } else {
      if (ptr == 0) hdRh = R;
      full.fill(0);
      for (int c = 0; c < m; c++)
        for (int i = 0; i < 3; i++)
          for (int k = 0; k < 3; k++) {
            full(i, c) += hdRh(i, k) * Jq(k, c);
            full(i + 3, c) += hdRh(i, k) * Jq(k + 3, c);
          }
    }
    J.resize(dimensionSOUT(t), m);
    int k = 0;
    for (int i = 0; i < 6; i++) if (fl(i)) { for (int c = 0; c < m; c++) J(k, c) = full(i, c); k++; }
    return J;
  }
};

class FeaturePoint6dRelative {
 public:
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<MatrixHomogeneous, int> positionSIN, positionReferenceSIN;
  SignalPtr<Matrix, int> articularJacobianSIN, articularJacobianReferenceSIN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  void valid_computeJacobian_(Matrix&, int t) {
    assume_eq(articularJacobianSIN(t).rows(), 6); assume_eq(articularJacobianReferenceSIN(t).rows(), 6);
    assume_eq(articularJacobianReferenceSIN(t).cols(), articularJacobianSIN(t).cols());
  }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Flags& fl = selectionSIN(t);
    const Matrix &Jp = articularJacobianSIN(t), &Jr = articularJacobianReferenceSIN(t);
    MatrixHomogeneous D; D = positionSIN(t).inverse(Eigen::Affine) * positionReferenceSIN(t);
    MatrixTwist V; buildFrom(D, V);
    Matrix full = V * Jr; full -= Jp;
    J.resize(dimensionSOUT(t), Jp.cols());
    int k = 0;
    for (int i = 0; i < 6; i++) if (fl(i)) { for (int c = 0; c < Jp.cols(); c++) J(k, c) = full(i, c); k++; }
    return J;
  }
};

class FeatureVisualPoint {
 public:
  Matrix L;
  FeatureVisualPoint* ptr;
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<Vector, int> xySIN;
  SignalPtr<double, int> ZSIN;
  SignalPtr<Matrix, int> articularJacobianSIN;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  void valid_computeError_(Vector&, int t) {
    assume(xySIN(t).size() >= 2); if (ptr != 0) assume(ptr->xySIN(t).size() >= 2);
  }
  unsigned int& getDimension(unsigned int& dim, int t) {
    dim = 0;
    for (int i = 0; i < 2; i++) if (selectionSIN(t)(i)) dim++;
    return dim;
  }
  Vector& computeError(Vector& e, int t) {
    e.resize(dimensionSOUT(t));
    if (ptr == 0) throw ExceptionFeature(ExceptionFeature::BAD_INIT, "");
    int k = 0;
    for (int i = 0; i < 2; i++) if (selectionSIN(t)(i)) { e(k) = xySIN(t)(i) - ptr->xySIN(t)(i); k++; }
    return e;
  }
  void valid_computeJacobian_(Matrix&, int t) {
    assume(xySIN(t).size() >= 2); assume_eq(articularJacobianSIN(t).rows(), 6);
  }
  Matrix& computeJacobian(Matrix& J, int t) {
    const Flags& fl = selectionSIN(t);
    double Z = ZSIN(t), x = xySIN(t)(0), y = xySIN(t)(1);
    L.resize((int)dimensionSOUT(t), 6);
    if (Z < 0 || std::fabs(Z) < 1e-6) throw ExceptionFeature(ExceptionFeature::BAD_INIT, "");
    int k = 0;
    if (fl(0)) {
      L(k, 0) = -1 / Z; L(k, 1) = 0; L(k, 2) = x / Z; L(k, 3) = x * y; L(k, 4) = -(1 + x * x); L(k, 5) = y; k++;
    }
    if (fl(1)) {
      L(k, 0) = 0; L(k, 1) = -1 / Z; L(k, 2) = y / Z; L(k, 3) = 1 + y * y; L(k, 4) = -x * y; L(k, 5) = -x; k++;
    }
    J = L * articularJacobianSIN(t);
    return J;
  }
};

class FeatureLineDistance {
 public:
  SignalPtr<MatrixHomogeneous, int> positionSIN;
  SignalPtr<Vector, int> positionRefSIN, vectorSIN;
  SignalTimeDependent<Vector, int> lineSOUT;
  unsigned int& getDimension(unsigned int& dim, int) { return dim = 1; }
  void valid_computeLineCoordinates_(Vector&, int t) { assume_eq(vectorSIN(t).size(), 3); }
  // a point of the line and its direction
  Vector& computeLineCoordinates(Vector& c, int t) {
    const MatrixHomogeneous& M = positionSIN(t);
    MatrixRotation R; R = M.linear();
    Vector v(3); v = R * vectorSIN(t);
    c.resize(6);
    for (int i = 0; i < 3; i++) { c(i) = M(i, 3); c(i + 3) = v(i); }
    return c;
  }
  void valid_computeError_(Vector&, int t) { assume_eq(lineSOUT(t).size(), 6); assume_eq(positionRefSIN(t).size(), 6); }
  // mixed product of the directions and of a segment joining the lines, over the squared norm of their cross product
  Vector& computeError(Vector& e, int t) {
    const Vector &l = lineSOUT(t), &m = positionRefSIN(t);
    double nx = l(4) * m(5) - l(5) * m(4), ny = l(5) * m(3) - l(3) * m(5), nz = l(3) * m(4) - l(4) * m(3);
    e.resize(1);
    e(0) = -(nx * (l(0) - m(0)) + ny * (l(1) - m(1)) + nz * (l(2) - m(2))) / (nx * nx + ny * ny + nz * nz);
    return e;
  }
};

typedef pinocchio::SpecialEuclideanOperationTpl<3, double> SE3_t;
typedef pinocchio::CartesianProductOperation<pinocchio::VectorSpaceOperationTpl<3, double>,
                                             pinocchio::SpecialOrthogonalOperationTpl<3, double> > R3xSO3_t;
template <typename LieGroup_t>
Vector6d convertVelocity(const MatrixHomogeneous& M, const MatrixHomogeneous& Mdes, const Vector& faNufafbDes);
template <Representation_t representation>
class FeaturePose {
 public:
  SignalPtr<Flags, int> selectionSIN;
  SignalPtr<MatrixHomogeneous, int> oMja, jaMfa, oMjb, jbMfb, faMfbDes;
  SignalPtr<Matrix, int> jaJja, jbJjb;
  SignalPtr<Vector, int> faNufafbDes;
  SignalTimeDependent<MatrixHomogeneous, int> faMfb;
  SignalTimeDependent<Vector7, int> q_faMfb, q_faMfbDes;
  SignalTimeDependent<unsigned int, int> dimensionSOUT;
  unsigned int& getDimension(unsigned int& dim, int t) {
    dim = 0;
    for (int i = 0; i < 6; i++) if (selectionSIN(t)(i)) dim++;
    return dim;
  }
  MatrixHomogeneous& computefaMfb(MatrixHomogeneous& r, int t) {
    r = (oMja(t) * jaMfa(t)).inverse(Eigen::Affine) * oMjb(t) * jbMfb(t);
    return r;
  }
  // the desired pose moves: only its velocity contributes
  Vector& computeErrorDot(Vector& e, int t) {
    const Flags& fl = selectionSIN(t);
    e.resize(dimensionSOUT(t));
    if (!faNufafbDes.isPlugged()) { e.setZero(); return e; }
    q_faMfb.recompute(t);
    q_faMfbDes.recompute(t);
    faNufafbDes.recompute(t);
    Eigen::Matrix<double, 6, 6, Eigen::RowMajor> D;
    Vector6d nu;
    if (representation == SE3Representation) {
      SE3_t().template dDifference<pinocchio::ARG0>(q_faMfbDes.accessCopy(), q_faMfb.accessCopy(), D);
      nu = convertVelocity<SE3_t>(faMfb(t), faMfbDes(t), faNufafbDes.accessCopy());
    } else {
      R3xSO3_t().template dDifference<pinocchio::ARG0>(q_faMfbDes.accessCopy(), q_faMfb.accessCopy(), D);
      nu = convertVelocity<R3xSO3_t>(faMfb(t), faMfbDes(t), faNufafbDes.accessCopy());
    }
    int k = 0;
    for (int i = 0; i < 6; i++) if (fl(i)) { e(k) = D.row(i) * nu; k++; }
    return e;
  }
  Vector& computeError(Vector& e, int t) {
    Eigen::Matrix<double, 6, 1> v;
    if (representation == SE3Representation)
      pinocchio::SpecialEuclideanOperationTpl<3, double>().difference(q_faMfbDes(t), q_faMfb(t), v);
    else
      pinocchio::CartesianProductOperation<pinocchio::VectorSpaceOperationTpl<3, double>,
        pinocchio::SpecialOrthogonalOperationTpl<3, double> >().difference(q_faMfbDes(t), q_faMfb(t), v);
    e.resize(dimensionSOUT(t));
    int k = 0;
    for (int i = 0; i < 6; i++) if (selectionSIN(t)(i)) { e(k) = v(i); k++; }
    return e;
  }
};
template class FeaturePose<SE3Representation>;
template class FeaturePose<R3xSO3Representation>;
}  // namespace spec
