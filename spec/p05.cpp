// Reference semantics of look-ups, registrations and requests that may be invalid:
// the valid ones return what was registered, the others throw and change nothing.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/task-abstract.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::Signal;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Vector;
using namespace dynamicgraph::sot;

class PoolStorage {
 public:
  std::map<std::string, TaskAbstract*> task;
  std::map<std::string, FeatureAbstract*> feature;
  static PoolStorage* instance_;
  void registerTask(const std::string& name, TaskAbstract* t) {
    if (task.count(name)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "");
    task[name] = t;
  }
  TaskAbstract& getTask(const std::string& name) {
    if (!task.count(name)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "");
    return *task.find(name)->second;
  }
  void registerFeature(const std::string& name, FeatureAbstract* f) {
    if (feature.count(name)) throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "");
    feature[name] = f;
  }
  FeatureAbstract& getFeature(const std::string& name) {
    if (!feature.count(name)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "");
    return *feature.find(name)->second;
  }
  static PoolStorage* getInstance() {
    if (instance_ == 0) instance_ = new PoolStorage;
    return instance_;
  }
  static void destroy() {
    delete instance_;
    instance_ = 0;
  }
};
PoolStorage* PoolStorage::instance_ = 0;

class FeaturePoint6d {
 public:
  enum ComputationFrameType { FRAME_DESIRED, FRAME_CURRENT };
  ComputationFrameType computationFrame_;
  void computationFrame(const std::string& f) {
    if (f != "current" && f != "desired") throw ExceptionFeature(ExceptionFeature::GENERIC, "");
    computationFrame_ = f == "current" ? FRAME_CURRENT : FRAME_DESIRED;
  }
  void valid_computationFrame_() const { assume_in(computationFrame_, 0, 2); }
  std::string computationFrame() const { return computationFrame_ == FRAME_CURRENT ? "current" : "desired"; }
};

// one row per selected degree of freedom, in increasing order
class FeaturePosture {
 public:
  SignalPtr<Vector, int> state_, posture_;
  Signal<Matrix, int> jacobianSOUT;
  std::vector<bool> activeDofs_;
  std::size_t nbActiveDofs_;
  void selectDof(unsigned dofId, bool control) {
    std::size_t n = state_.accessCopy().size();
    if ((std::size_t)posture_.accessCopy().size() != n) throw std::runtime_error("");
    if (dofId >= n) throw ExceptionAbstract(ExceptionAbstract::TOOLS, "");
    if (activeDofs_.size() != n) {
      activeDofs_ = std::vector<bool>(n, false);
      nbActiveDofs_ = 0;
    }
    bool had = activeDofs_[dofId];
    if (control && !had) nbActiveDofs_++;
    if (!control && had) nbActiveDofs_--;
    activeDofs_[dofId] = control;
    Matrix J = Matrix::Zero(nbActiveDofs_, n);
    std::size_t r = 0;
    for (std::size_t i = 0; i < n; i++)
      if (activeDofs_[i]) { J(r, i) = 1; r++; }
    jacobianSOUT.setConstant(J);
  }
};

template <typename S, typename C> struct FIRFilter {
  std::vector<C> coefs;
  void setElement(const unsigned int& r, const C& c) {
    if (r >= coefs.size()) throw std::out_of_range("");
    coefs[r] = c;
  }
  C getElement(const unsigned int& r) const {
    if (r >= coefs.size()) throw std::out_of_range("");
    return coefs[r];
  }
};
template struct FIRFilter<double, double>;
template struct FIRFilter<Vector, double>;
template struct FIRFilter<Vector, Matrix>;

template <class S, class C> class IntegratorAbstract {
 public:
  std::vector<C> numerator, denominator;
  void popNumCoef() {
    if (numerator.empty()) throw std::out_of_range("");
    numerator.pop_back();
  }
  void popDenomCoef() {
    if (denominator.empty()) throw std::out_of_range("");
    denominator.pop_back();
  }
};
template class IntegratorAbstract<double, double>;
template class IntegratorAbstract<Vector, double>;
template class IntegratorAbstract<Vector, Matrix>;
}
