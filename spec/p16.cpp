// Reference semantics of limiters, control laws, gains and switching elements.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <cmath>
#include <map>
#include <stdexcept>
#include <sys/time.h>
#include <time.h>
#include <sot/core/flags.hh>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/multi-bound.hh>
namespace spec {
using dynamicgraph::Vector;
using dynamicgraph::Matrix;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Signal;
using namespace dynamicgraph::sot;
// a joint command passes only if it keeps the joint strictly inside its limits
class JointLimitator {
 public:
  SignalPtr<Vector, int> jointSIN, upperJlSIN, lowerJlSIN, controlSIN;
  void valid_computeControl_(Vector&, int t) {
    assume_eq(upperJlSIN(t).size(), jointSIN(t).size());
    assume_eq(lowerJlSIN(t).size(), jointSIN(t).size());
    assume(jointSIN(t).size() >= controlSIN(t).size());
  }
  Vector& computeControl(Vector& u, int t) {
    const Vector &q = jointSIN(t), &hi = upperJlSIN(t), &lo = lowerJlSIN(t), &in = controlSIN(t);
    int n = in.size(), off = q.size() - in.size();
    u = Vector::Zero(n);
    for (int i = 0; i < n; i++) {
      double next = q(i + off) + 0.005 * in(i);
      bool freeflyer = i + off < 6;
      if (freeflyer || (lo(i + off) < next && next < hi(i + off))) u(i) = in(i);
    }
    return u;
  }
  void valid_computeWidthJl_(Vector&, const int& t) { assume_eq(lowerJlSIN(t).size(), upperJlSIN(t).size()); }
  Vector& computeWidthJl(Vector& r, const int& t) { r = upperJlSIN(t) - lowerJlSIN(t); return r; }
};
// tilt is kept below an affine function of |pan|
class NeckLimitation {
 public:
  unsigned int panRank, tiltRank; double coeffLinearPan, coeffAffinePan, signTilt;
  SignalPtr<Vector, int> jointSIN;
  void valid_computeJointLimitation_(Vector&, const int& t) {
    assume_eq(signTilt, 1);
    assume_in(panRank, 0, jointSIN(t).size());
    assume_in(tiltRank, 0, jointSIN(t).size());
    assume(panRank != tiltRank);
  }
  Vector& computeJointLimitation(Vector& out, const int& t) {
    Vector q = jointSIN(t);
    double pan = q(panRank), tilt = q(tiltRank);
    double a = std::fabs(pan) < 1e-3 ? 0. : pan > 0 ? pan : -pan;
    double lim = a * coeffLinearPan + coeffAffinePan;
    out = q;
    out(tiltRank) = tilt > lim ? lim : tilt;
    return out;
  }
};
class GripperControl {
 public:
  double offset; Vector factor;
  void valid_computeIncrement_(const Vector& torques, const Vector& limits, const Vector& vel) {
    assume_real(offset, 0, 1);
    assume_eq(torques.size(), vel.size()); assume_eq(limits.size(), vel.size());
  }
  void computeIncrement(const Vector& torques, const Vector& limits, const Vector& vel) {
    int n = vel.size();
    if (factor.size() != n) factor = Vector::Constant(n, 1.);
    for (int i = 0; i < n; i++) {
      bool over = (torques(i) > limits(i) && vel(i) > 0) || (torques(i) < -limits(i) && vel(i) < 0);
      double f = over ? factor(i) * offset : factor(i) / offset;
      factor(i) = f < 0 ? 0 : f > 1 ? 1 : f;
    }
  }
  void valid_computeDesiredPosition_(const Vector& cur, const Vector& des, const Vector& torques, const Vector& limits, Vector&) {
    assume_real(offset, 0, 1);
    assume_eq(des.size(), cur.size()); assume_eq(torques.size(), cur.size()); assume_eq(limits.size(), cur.size());
  }
  Vector& computeDesiredPosition(const Vector& cur, const Vector& des, const Vector& torques, const Vector& limits, Vector& ref) {
    computeIncrement(torques, limits, (des - cur) / 0.005);
    ref = cur;
    for (int i = 0; i < cur.size(); i++) ref(i) = cur(i) + factor(i) * (des(i) - cur(i));
    return ref;
  }
  static Vector& selector(const Vector& full, const Flags& sel, Vector& out) {
    int n = 0, c = 0;
    for (int i = 0; i < full.size(); i++) if (sel(i)) n++;
    out.resize(n);
    for (int i = 0; i < full.size(); i++) if (sel(i)) { out(c) = full(i); c++; }
    return out;
  }
};
class GripperControlPlugin : public GripperControl {
 public:
  void setOffset(const double& v) {
    if (!(v > 0 && v < 1)) throw std::invalid_argument("");
    offset = v;
  }
};
class Latch {
 public:
  bool signalOutput;
  void turnOn() { signalOutput = true; }
  void turnOff() { signalOutput = false; }
  bool& turnOnLatch(bool& r, int) { signalOutput = true; r = true; return r; }
  bool& turnOffLatch(bool& r, int) { signalOutput = false; r = false; return r; }
  bool& latchOutput(bool& r, int) { r = signalOutput; return r; }
};
class CoMFreezer {
 public:
  Vector m_lastCoM; bool m_previousPGInProcess; int m_lastStopTime;
  SignalPtr<Vector, int> CoMRefSIN; SignalPtr<unsigned, int> PGInProcessSIN;
  void valid_computeFreezedCoM_(Vector&, const int& t) { assume(t >= 0); }
  // follows the reference while in process, and for 200 iterations after a stop
  Vector& computeFreezedCoM(Vector& out, const int& t) {
    bool run = PGInProcessSIN(t) != 0;
    Vector ref = CoMRefSIN(t);
    if (!run && m_previousPGInProcess) m_lastStopTime = t;
    if (run || m_previousPGInProcess || t < m_lastStopTime + 200 || m_lastStopTime < 0) m_lastCoM = ref;
    if (run) m_previousPGInProcess = true; else m_previousPGInProcess = false;
    if (m_lastStopTime < 0) m_lastStopTime = t;
    out = m_lastCoM;
    return out;
  }
};
class SmoothReach {
 public:
  Vector start, goal; int startTime, lengthTime; bool isStarted, isParam; int smoothMode; double smoothParam;
  SignalPtr<Vector, int> startSIN;
  void set(const Vector& g, const int& l) { goal = g; lengthTime = l; isParam = true; }
  const Vector& getGoal() { return goal; }
  const int& getLength() { return lengthTime; }
  const int& getStart() { return startTime; }
  void setSmoothing(const int& m, const double& p) { smoothMode = m; smoothParam = p; }
  void valid_smoothFunction_(double x) { assume(x > 0); assume(x < 1); }
  double smoothFunction(double x) {
    double y = -smoothParam / x + smoothParam / (1 - x);
    if (smoothMode == 0) return x;
    if (smoothMode == 1) return 0.5 + std::tanh(y) / 2;
    if (smoothMode == 2) return 0.5 + std::atan(y) / M_PI;
    return 0;
  }
  void valid_goalSOUT_function_(Vector&, const int& t) {
    assume(lengthTime != 0);
    assume_eq(start.size(), goal.size());
    assume_eq(startSIN(t).size(), goal.size());
    assume(isParam || startTime < t); assume_eq(smoothMode, 0);
  }
  Vector& goalSOUT_function(Vector& res, const int& t) {
    if (isParam) { start = startSIN(t); startTime = t; isParam = false; isStarted = true; }
    if (isStarted) {
      double x = (double)(t - startTime) / lengthTime;
      if (x > 1) x = 1;
      double s = smoothFunction(x);
      res = start + s * (goal - start);
    }
    return res;
  }
};
class ControlPD {
 public:
  double TimeStep; SignalPtr<Vector, int> KpSIN, KdSIN, positionSIN, desiredpositionSIN, velocitySIN, desiredvelocitySIN;
  SignalTimeDependent<Vector, int> controlSOUT;
  Vector position_error_, velocity_error_;
  void init(const double& s) { TimeStep = s; }
  void valid_computeControl_(Vector&, int t) {
    assume_eq(KdSIN(t).size(), KpSIN(t).size()); assume_eq(positionSIN(t).size(), KpSIN(t).size());
    assume_eq(desiredpositionSIN(t).size(), KpSIN(t).size()); assume_eq(velocitySIN(t).size(), KpSIN(t).size());
    assume_eq(desiredvelocitySIN(t).size(), KpSIN(t).size());
  }
  Vector& computeControl(Vector& tau, int t) {
    int n = KpSIN(t).size();
    position_error_ = desiredpositionSIN(t) - positionSIN(t);
    velocity_error_ = desiredvelocitySIN(t) - velocitySIN(t);
    tau.resize(n);
    for (int i = 0; i < n; i++) tau(i) = KpSIN(t)(i) * position_error_(i) + KdSIN(t)(i) * velocity_error_(i);
    return tau;
  }
  Vector& getPositionError(Vector& r, int t) { controlSOUT(t); r = position_error_; return r; }
  Vector& getVelocityError(Vector& r, int t) { controlSOUT(t); r = velocity_error_; return r; }
};
class ControlGR {
 public:
  double TimeStep, _dimension; SignalPtr<Matrix, int> matrixASIN; SignalPtr<Vector, int> accelerationSIN, gravitySIN;
  void init(const double& s) { TimeStep = s; }
  double& setsize(int d) { _dimension = d; return _dimension; }
  void valid_computeControl_(Vector&, int t) {
    assume_eq(matrixASIN(t).rows(), accelerationSIN(t).size()); assume_eq(matrixASIN(t).cols(), accelerationSIN(t).size());
    assume_eq(gravitySIN(t).size(), accelerationSIN(t).size());
  }
  Vector& computeControl(Vector& tau, int t) { tau = gravitySIN(t) + matrixASIN(t) * accelerationSIN(t); return tau; }
};
class AdmittanceControlOpPoint {
 public:
  SignalPtr<Vector, int> m_KpSIN, m_KdSIN, m_dqSaturationSIN, m_forceSIN, m_w_forceDesSIN;
  SignalPtr<MatrixHomogeneous, int> m_opPoseSIN, m_sensorPoseSIN;
  SignalTimeDependent<Vector, int> m_w_forceSINNER, m_w_dqSINNER;
  bool m_initSucceeded; int m_n; double m_dt; Vector m_w_dq;
  void init(const double& dt) {
    if (!m_dqSaturationSIN.isPlugged() || !m_KpSIN.isPlugged() || !m_KdSIN.isPlugged() || !m_forceSIN.isPlugged() ||
        !m_w_forceDesSIN.isPlugged() || !m_opPoseSIN.isPlugged() || !m_sensorPoseSIN.isPlugged()) return;
    m_n = 6; m_dt = dt; m_w_dq = Vector::Zero(6); m_initSucceeded = true;
  }
  void valid_resetDq_() { assume_eq(m_n, 6); }
  void resetDq() { m_w_dq = Vector::Zero(m_n); }
  void valid_w_dqSINNER_function_(Vector& s, int t) {
    assume_eq(m_n, 6); assume_eq(m_w_dq.size(), 6); assume_eq(s.size(), 6);
    assume_eq(m_KpSIN(t).size(), 6); assume_eq(m_KdSIN(t).size(), 6); assume_eq(m_dqSaturationSIN(t).size(), 6);
    assume_eq(m_w_forceDesSIN(t).size(), 6); assume_eq(m_w_forceSINNER(t).size(), 6);
    for (int i = 0; i < 6; i++) assume(m_dqSaturationSIN(t)(i) >= 0);
  }
  Vector& w_dqSINNER_function(Vector& s, int t) {
    if (!m_initSucceeded) return s;
    for (int i = 0; i < 6; i++) {
      double v = m_w_dq(i) + m_dt * m_KpSIN(t)(i) * (m_w_forceDesSIN(t)(i) - m_w_forceSINNER(t)(i)) - m_KdSIN(t)(i) * m_w_dq(i);
      double lim = m_dqSaturationSIN(t)(i);
      m_w_dq(i) = v > lim ? lim : v < -lim ? -lim : v;
    }
    s = m_w_dq;
    return s;
  }
};
class GainAdaptive {
 public:
  double coeff_a, coeff_b, coeff_c; SignalPtr<Vector, int> errorSIN;
  void init(const double& lambda) { coeff_a = 0; coeff_b = 0; coeff_c = lambda; }
  void init(const double& at0, const double& atinf, const double& tan0) {
    coeff_a = at0 - atinf; coeff_c = atinf;
    coeff_b = at0 == atinf ? 0 : tan0 / (at0 - atinf);
  }
  void valid_initFromPassingPoint_(const double& at0, const double& atinf, const double& ref, const double& p) { assume(ref != 0); assume(p > 0); }
  void initFromPassingPoint(const double& at0, const double& atinf, const double& ref, const double& p) {
    coeff_a = at0 - atinf; coeff_c = atinf;
    coeff_b = at0 == atinf ? 0 : -std::log(p) / ref;
  }
  void forceConstant() { coeff_a = 0; }
  double& computeGain(double& r, int t) { r = coeff_a * std::exp(-coeff_b * errorSIN(t).norm()) + coeff_c; return r; }
};
class GainHyperbolic {
 public:
  double coeff_a, coeff_b, coeff_c, coeff_d; SignalPtr<Vector, int> errorSIN;
  void init(const double& lambda) { coeff_a = 0; coeff_b = 0; coeff_c = lambda; coeff_d = 0; }
  void init(const double& at0, const double& atinf, const double& tan0, const double& shift) {
    coeff_a = at0 - atinf; coeff_c = atinf; coeff_d = shift;
    coeff_b = at0 == atinf ? 0 : tan0 / (2 * (at0 - atinf));
  }
  void forceConstant() { coeff_a = 0; }
  double& computeGain(double& r, int t) {
    r = coeff_c + coeff_a * (1 + std::tanh(-coeff_b * (errorSIN(t).norm() - coeff_d))) / 2;
    return r;
  }
};
class BinaryIntToUint {
 public:
  SignalPtr<int, int> binaryIntSIN;
  unsigned& computeOutput(unsigned& r, int t) { r = binaryIntSIN(t) < 0 ? 0 : 1; return r; }
};
class MotionPeriod {
 public:
  enum MotionPeriodType { MOTION_CONSTANT, MOTION_SIN, MOTION_COS };
  struct sotMotionParam { MotionPeriodType motionType; unsigned int period, initPeriod; double amplitude, initAmplitude; };
  unsigned int size; std::vector<sotMotionParam> motionParams;
  void valid_computeMotion_(Vector&, const int& t) {
    assume_eq(size, motionParams.size());
    for (unsigned i = 0; i < motionParams.size(); i++) { assume(motionParams[i].period > 0); assume(t >= (int)motionParams[i].initPeriod); }
  }
  Vector& computeMotion(Vector& r, const int& t) {
    r.resize(size);
    for (unsigned i = 0; i < size; i++) {
      const sotMotionParam& p = motionParams[i];
      double x = (double)((t - p.initPeriod) % p.period) / p.period;
      double w = p.motionType == MOTION_SIN ? std::sin(2 * M_PI * x) : p.motionType == MOTION_COS ? std::cos(2 * M_PI * x) : 1.;
      r(i) = p.initAmplitude + p.amplitude * w;
    }
    return r;
  }
  void resize(const unsigned int& n) {
    size = n;
    motionParams.resize(n);
    for (unsigned i = 0; i < n; i++) {
      motionParams[i].motionType = MOTION_CONSTANT; motionParams[i].amplitude = 0; motionParams[i].initAmplitude = 0;
      motionParams[i].initPeriod = 0; motionParams[i].period = 1;
    }
  }
};
class TimeStamp {
 public:
  struct timeval val; unsigned int offsetValue; bool offsetSet;
  Vector& getTimeStamp(Vector& r, const int&) {
    gettimeofday(&val, NULL);
    r.resize(2);
    r(0) = val.tv_sec; r(1) = val.tv_usec;
    return r;
  }
  void valid_getTimeStampDouble_(const Vector& v, double&) { assume_eq(v.size(), 2); }
  double& getTimeStampDouble(const Vector& v, double& r) {
    r = (v(0) - (offsetSet ? (double)offsetValue : 0.)) * 1000 + v(1) / 1000;
    return r;
  }
};
class TaskPD {
 public:
  Vector previousError; double beta; SignalTimeDependent<Vector, int> errorSOUT;
  Vector& computeErrorDot(Vector& r, int t) {
    Vector e = errorSOUT(t);
    if (previousError.size() == e.size()) r = e - previousError;
    else r = Vector::Zero(e.size());
    previousError = e;
    return r;
  }
};
class TaskUnilateral {
 public:
  SignalPtr<Vector, int> positionSIN, referenceInfSIN, referenceSupSIN; SignalPtr<double, int> dtSIN;
  void valid_computeTaskUnilateral_(VectorMultiBound&, int t) {
    assume_eq(referenceInfSIN(t).size(), positionSIN(t).size()); assume_eq(referenceSupSIN(t).size(), positionSIN(t).size());
    assume(dtSIN(t) != 0);
  }
  VectorMultiBound& computeTaskUnilateral(VectorMultiBound& r, int t) {
    int n = positionSIN(t).size();
    double dt = dtSIN(t);
    r.resize(n);
    for (int i = 0; i < n; i++) r[i] = MultiBound((referenceInfSIN(t)(i) - positionSIN(t)(i)) / dt, (referenceSupSIN(t)(i) - positionSIN(t)(i)) / dt);
    return r;
  }
};
class Event {
 public:
  std::vector<dynamicgraph::SignalBase<int>*> triggers;
  SignalPtr<bool, int> conditionSIN; bool lastVal_; int timeSinceUp_, repeatAfterNIterations_;
  void repeat(const int& n) { repeatAfterNIterations_ = n; }
  bool& check(bool& r, const int& t) {
    bool v = conditionSIN(t), up = v && !lastVal_;
    int since = up ? 0 : v ? timeSinceUp_ + 1 : timeSinceUp_;
    bool fire = up || (repeatAfterNIterations_ > 0 && since >= repeatAfterNIterations_);
    r = v != lastVal_;
    lastVal_ = v;
    timeSinceUp_ = fire ? 0 : since;
    if (fire) for (size_t i = 0; i < triggers.size(); i++) triggers[i]->recompute(t);
    return r;
  }
};
template <class V, class Time> class Switch {
 public:
  std::vector<SignalPtr<V, int>*> signalsIN;
  SignalPtr<int, Time> selectionSIN; SignalPtr<bool, Time> boolSelectionSIN;
  V& signal(V& r, const Time& t) {
    int k = selectionSIN.isPlugged() ? selectionSIN(t) : boolSelectionSIN(t) ? 1 : 0;
    if (k < 0 || k >= (int)signalsIN.size()) throw std::runtime_error("");
    r = signalsIN[k]->access(t);
    return r;
  }
};
template class Switch<Vector, int>;
template class Switch<bool, int>;
template class Switch<MatrixHomogeneous, int>;
}
