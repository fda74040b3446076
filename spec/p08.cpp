// Reference semantics of the simulated device.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <Eigen/Geometry>
#include <cmath>
#include <stdexcept>
#include <string>
#include <pinocchio/multibody/liegroup/special-euclidean.hpp>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/periodic-call.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::Signal;
using dynamicgraph::SignalPtr;
using dynamicgraph::Vector;
using dynamicgraph::sot::MatrixHomogeneous;
using dynamicgraph::sot::MatrixRotation;
using dynamicgraph::sot::PeriodicCall;

enum ControlInput { CONTROL_INPUT_NO_INTEGRATION = 0, CONTROL_INPUT_ONE_INTEGRATION = 1, CONTROL_INPUT_TWO_INTEGRATION = 2, CONTROL_INPUT_SIZE = 3 };

// whether the value had to be changed
bool saturateBounds(double& val, const double& lower, const double& upper) {
  double old = val;
  val = old < lower ? lower : upper < old ? upper : old;
  return old < lower || upper < old;
}

class Device : public Entity {
 public:
  Vector state_, velocity_;
  bool sanityCheck_;
  Vector vel_control_;
  ControlInput controlInputType_;
  bool withForceSignals[4];
  PeriodicCall periodicCallBefore_, periodicCallAfter_;
  Vector upperPosition_, upperVelocity_, upperTorque_, lowerPosition_, lowerVelocity_, lowerTorque_;
  SignalPtr<Vector, int> controlSIN;
  Signal<Vector, int> stateSOUT, velocitySOUT;
  Signal<Vector, int> motorcontrolSOUT, previousControlSOUT, ZMPPreviousControllerSOUT;
  Signal<Vector, int>* forcesSOUT[4];
  Signal<Vector, int> pseudoTorqueSOUT;
  MatrixHomogeneous ffPose_;
  Vector forceZero6;

  // at rest in the zero state, controlled in velocity, checked, without force sensor
  Device(const std::string& n) : Entity(n), state_(Vector::Zero(6)), velocity_(Vector::Zero(6)), sanityCheck_(true), controlInputType_(CONTROL_INPUT_ONE_INTEGRATION),
      controlSIN(NULL, n), stateSOUT(n), velocitySOUT(n), motorcontrolSOUT(n), previousControlSOUT(n), ZMPPreviousControllerSOUT(n), pseudoTorqueSOUT(n), forceZero6(Vector::Zero(6)) {
    for (int i = 0; i < 4; i++) withForceSignals[i] = false;
  }
  const MatrixHomogeneous& freeFlyerPose() { return ffPose_; }
  void setVelocitySize(const unsigned int& size) {
    velocity_ = Vector::Zero(size);
    velocitySOUT.setConstant(velocity_);
  }
  void setStateSize(const unsigned int& size) {
    state_ = Vector::Zero(size);
    stateSOUT.setConstant(state_);
    previousControlSOUT.setConstant(state_);
    pseudoTorqueSOUT.setConstant(state_);
    motorcontrolSOUT.setConstant(state_);
    setVelocitySize(size);
    ZMPPreviousControllerSOUT.setConstant(Vector::Zero(3));
  }
  void setState(const Vector& st) {
    if (sanityCheck_) {
      bool torque = controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION;
      bool speed = torque || controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION;
      if (!speed && controlInputType_ != CONTROL_INPUT_NO_INTEGRATION) throw std::invalid_argument("");
      if (torque && (lowerTorque_.size() != st.size() || upperTorque_.size() != st.size())) throw std::invalid_argument("");
      if (speed && (lowerVelocity_.size() != st.size() || upperVelocity_.size() != st.size())) throw std::invalid_argument("");
    }
    state_ = st;
    stateSOUT.setConstant(state_);
    motorcontrolSOUT.setConstant(state_);
  }
  void setVelocity(const Vector& vel) {
    velocity_ = vel;
    velocitySOUT.setConstant(velocity_);
  }
  // the root of the robot is the six first components of its state
  void valid_setRoot_(const MatrixHomogeneous& M) { assume(state_.size() >= 6); }
  void setRoot(const MatrixHomogeneous& M) {
    Vector q = state_;
    Eigen::Vector3d r = M.linear().eulerAngles(2, 1, 0);
    for (int i = 0; i < 3; i++) q(i) = M.translation()(i);
    for (int i = 0; i < 3; i++) q(i + 3) = r(2 - i);
    setState(q);
  }
  void valid_setRoot_(const Matrix& M) { assume(state_.size() >= 6); assume_eq(M.rows(), 4); assume_eq(M.cols(), 4); }
  void setRoot(const Matrix& root) {
    MatrixHomogeneous M;
    M.matrix() = root;
    setRoot(M);
  }
  void setSecondOrderIntegration() {
    controlInputType_ = CONTROL_INPUT_TWO_INTEGRATION;
    setVelocitySize(state_.size());
  }
  void setNoIntegration() {
    controlInputType_ = CONTROL_INPUT_NO_INTEGRATION;
    setVelocitySize(state_.size());
  }
  void setControlInputType(const std::string& cit) {
    if (cit == "noInteg") controlInputType_ = CONTROL_INPUT_NO_INTEGRATION;
    if (cit == "oneInteg") controlInputType_ = CONTROL_INPUT_ONE_INTEGRATION;
    if (cit == "twoInteg") controlInputType_ = CONTROL_INPUT_TWO_INTEGRATION;
  }
  void setSanityCheck(const bool& on) {
    if (on) {
      bool torque = controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION;
      bool speed = torque || controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION;
      if (!speed && controlInputType_ != CONTROL_INPUT_NO_INTEGRATION) throw std::invalid_argument("");
      if (torque && (lowerTorque_.size() != state_.size() || upperTorque_.size() != state_.size())) throw std::invalid_argument("");
      if (speed && (lowerVelocity_.size() != state_.size() || upperVelocity_.size() != state_.size())) throw std::invalid_argument("");
      if (lowerPosition_.size() != state_.size() || upperPosition_.size() != state_.size()) throw std::invalid_argument("");
    }
    sanityCheck_ = on;
  }
  void setPositionBounds(const Vector& lower, const Vector& upper) {
    if (lower.size() != state_.size() || upper.size() != state_.size()) throw std::invalid_argument("");
    lowerPosition_ = lower;
    upperPosition_ = upper;
  }
  void setVelocityBounds(const Vector& lower, const Vector& upper) {
    if (lower.size() != velocity_.size() || upper.size() != velocity_.size()) throw std::invalid_argument("");
    lowerVelocity_ = lower;
    upperVelocity_ = upper;
  }
  void setTorqueBounds(const Vector& lower, const Vector& upper) {
    if (lower.size() != state_.size() || upper.size() != state_.size()) throw std::invalid_argument("");
    lowerTorque_ = lower;
    upperTorque_ = upper;
  }

  // the base moves along the twist given in its own frame
  void valid_integrateRollPitchYaw_(Vector& state, const Vector& control, double dt) { assume(state.size() >= 6); assume(control.size() >= 6); }
  void integrateRollPitchYaw(Vector& state, const Vector& control, double dt) {
    Eigen::Matrix<double, 7, 1> from, to;
    from.head<3>() = state.head<3>();
    from.tail<4>() = Eigen::Quaterniond(Eigen::AngleAxisd(state(5), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(state(4), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(state(3), Eigen::Vector3d::UnitX())).coeffs();
    pinocchio::SpecialEuclideanOperationTpl<3, double>().integrate(from, control.head<6>() * dt, to);
    Eigen::Matrix3d R = Eigen::Quaterniond(to(6), to(3), to(4), to(5)).toRotationMatrix();
    Eigen::Vector3d ypr = R.eulerAngles(2, 1, 0);
    ffPose_.linear() = R;
    ffPose_.translation() = to.head<3>();
    for (int i = 0; i < 3; i++) {
      state(i) = to(i);
      state(3 + i) = ypr(2 - i);
    }
  }
  void sized_() {
    assume_eq(velocity_.size(), state_.size());
    assume_eq(lowerPosition_.size(), state_.size());
    assume_eq(upperPosition_.size(), state_.size());
    assume_eq(lowerVelocity_.size(), state_.size());
    assume_eq(upperVelocity_.size(), state_.size());
    assume(state_.size() >= 6);
    assume(controlInputType_ == CONTROL_INPUT_NO_INTEGRATION || controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION || controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION);
  }
  void within_(Vector& v, const Vector& lower, const Vector& upper) {
    int skip = lower.size() - v.size();
    for (int i = 0; i < v.size(); i++) v(i) = v(i) < lower(skip + i) ? lower(skip + i) : upper(skip + i) < v(i) ? upper(skip + i) : v(i);
  }
  void step_(const Vector& u, double dt) {
    if (sanityCheck_ && u.hasNaN()) return;
    if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
      state_.tail(u.size()) = u;
    } else {
      Vector v = u;
      if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
        v = velocity_.tail(u.size()) + 0.5 * dt * u;
        velocity_.tail(u.size()) += dt * u;
        if (sanityCheck_) within_(velocity_, lowerVelocity_, upperVelocity_);
      } else if (sanityCheck_) {
        within_(v, lowerVelocity_, upperVelocity_);
      }
      vel_control_ = v;
      if (u.size() == state_.size()) {
        integrateRollPitchYaw(state_, v, dt);
        state_.tail(state_.size() - 6) += dt * v.tail(state_.size() - 6);
      } else {
        state_.tail(u.size()) += dt * v;
      }
    }
    if (sanityCheck_) within_(state_, lowerPosition_, upperPosition_);
  }
  void valid_integrate_(const double& dt) { sized_(); assume(controlSIN.accessCopy().size() == state_.size() || controlSIN.accessCopy().size() == state_.size() - 6); }
  void integrate(const double& dt) { step_(controlSIN.accessCopy(), dt); }

  void valid_increment_(const double& dt) { sized_(); int t = stateSOUT.getTime(); assume(controlSIN(t).size() == state_.size() || controlSIN(t).size() == state_.size() - 6); }
  void increment(const double& dt) {
    int t = stateSOUT.getTime();
    try {
      periodicCallBefore_.run(t + 1);
    } catch (...) {
    }
    const Vector& u = controlSIN(t);
    step_(u, dt);
    stateSOUT.setConstant(state_);
    stateSOUT.setTime(t + 1);
    if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
      velocitySOUT.setConstant(velocity_);
      velocitySOUT.setTime(t + 1);
    }
    if (controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION) {
      velocitySOUT.setConstant(u);
      velocitySOUT.setTime(t + 1);
    }
    for (int i = 0; i < 4; i++)
      if (!withForceSignals[i]) forcesSOUT[i]->setConstant(forceZero6);
    ZMPPreviousControllerSOUT.setConstant(Vector::Zero(3));
    try {
      periodicCallAfter_.run(t + 1);
    } catch (...) {
    }
    motorcontrolSOUT.setConstant(state_);
  }
};
}  // namespace spec
