// Reference semantics of attaching and detaching: what is stored and what is declared.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sot/core/feature-abstract.hh>
#include <sot/core/flags.hh>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-abstract.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::Signal;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Vector;
using namespace dynamicgraph::sot;

class Task : public TaskAbstract {
 public:
  typedef std::list<FeatureAbstract*> FeatureList_t;
  FeatureList_t featureList;
  bool withDerivative;
  SignalPtr<double, int> controlGainSIN, dampingGainSINOUT;
  SignalPtr<Flags, int> controlSelectionSIN;
  SignalTimeDependent<Vector, int> errorSOUT, errorTimeDerivativeSOUT;
  void ready_() { jacobianSOUT.setReady(); errorSOUT.setReady(); errorTimeDerivativeSOUT.setReady(); }
  void addFeature(FeatureAbstract& s) {
    featureList.push_back(&s);
    jacobianSOUT.addDependency(s.jacobianSOUT);
    errorSOUT.addDependency(s.errorSOUT);
    errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
    ready_();
  }
  void addFeatureFromName(const std::string& n) { addFeature(PoolStorage::getInstance()->getFeature(n)); }
  void clearFeatureList() {
    for (FeatureList_t::iterator i = featureList.begin(); i != featureList.end(); ++i) {
      jacobianSOUT.removeDependency((*i)->jacobianSOUT);
      errorSOUT.removeDependency((*i)->errorSOUT);
      errorTimeDerivativeSOUT.removeDependency((*i)->getErrorDot());
    }
    featureList.clear();
    ready_();
  }
  FeatureList_t& getFeatureList() { return featureList; }
  void setControlSelection(const Flags& f) { controlSelectionSIN = f; }
  void addControlSelection(const Flags& f) { Flags r = controlSelectionSIN.accessCopy(); r &= f; controlSelectionSIN = r; }
  void clearControlSelection() { controlSelectionSIN = Flags(false); }
  void setWithDerivative(const bool& b) { withDerivative = b; }
  bool getWithDerivative() { return withDerivative; }
};

// A feature holds at most one reference, of its own class, and depends on the
// inputs of that reference that its computations read.
#define REFERENCE(F, SIGNALS, ADD, DEL)                                      \
  class F : public FeatureAbstract {                                         \
   public:                                                                   \
    F* ptr;                                                                  \
    FeatureAbstract* ptrA;                                                   \
    SIGNALS                                                                  \
    void setReference(FeatureAbstract* d) {                                  \
      if (ptr != NULL) { removeDependenciesFromReference(); }                \
      ptr = dynamic_cast<F*>(d);                                             \
      ptrA = ptr;                                                            \
      if (ptr != NULL) { addDependenciesFromReference(); }                   \
      errorSOUT.setReady();                                                  \
      errordotSOUT.setReady();                                               \
      jacobianSOUT.setReady();                                               \
    }                                                                        \
    const FeatureAbstract* getReferenceAbstract() const { return ptr; }      \
    FeatureAbstract* getReferenceAbstract() { return ptr; }                  \
    bool isReferenceSet() const { return ptr != NULL; }                      \
    void addDependenciesFromReference() { ADD }                              \
    void removeDependenciesFromReference() { DEL }                           \
  };
REFERENCE(Feature1D, , errordotSOUT.addDependency(ptr->errordotSIN);, errordotSOUT.removeDependency(ptr->errordotSIN);)
REFERENCE(FeatureJointLimits, , errordotSOUT.addDependency(ptr->errordotSIN);, errordotSOUT.removeDependency(ptr->errordotSIN);)
typedef SignalPtr<Vector, int> VectorIn;
typedef SignalPtr<MatrixHomogeneous, int> PoseIn;
REFERENCE(FeatureGeneric, VectorIn errorSIN;
          , errorSOUT.addDependency(ptr->errorSIN); errordotSOUT.addDependency(ptr->errordotSIN);
          , errorSOUT.removeDependency(ptr->errorSIN); errordotSOUT.removeDependency(ptr->errordotSIN);)
REFERENCE(FeatureVisualPoint, VectorIn xySIN;
          , errorSOUT.addDependency(ptr->xySIN); errordotSOUT.addDependency(ptr->errordotSIN);
          , errorSOUT.removeDependency(ptr->xySIN); errordotSOUT.removeDependency(ptr->errordotSIN);)
REFERENCE(FeaturePoint6d, PoseIn positionSIN; VectorIn velocitySIN;
          , errorSOUT.addDependency(ptr->positionSIN); jacobianSOUT.addDependency(ptr->positionSIN);
          errordotSOUT.addDependency(ptr->positionSIN); errordotSOUT.addDependency(ptr->velocitySIN);
          , errorSOUT.removeDependency(ptr->positionSIN); jacobianSOUT.removeDependency(ptr->positionSIN);
          errordotSOUT.removeDependency(ptr->positionSIN); errordotSOUT.removeDependency(ptr->velocitySIN);)

// Inputs of a variadic entity: each owned signal is registered and is a dependency.
template <typename Tin, typename Tout, typename Time>
class VariadicAbstract : public Entity {
 public:
  typedef SignalPtr<Tin, int> signal_t;
  SignalTimeDependent<Tout, int> SOUT;
  std::vector<signal_t*> signalsIN;
  std::string baseSigname;
  VariadicAbstract(const std::string& name, const std::string& className);
  virtual void updateSignalNumber(int n) {}
  void detach_(std::size_t i) {
    this->signalDeregistration(signalsIN[i]->shortName());
    SOUT.removeDependency(*signalsIN[i]);
    SOUT.setReady();
    delete signalsIN[i];
  }
  void attach_(signal_t* s) {
    this->signalRegistration(*s);
    SOUT.addDependency(*s);
    SOUT.setReady();
  }
  std::size_t addSignal(const std::string& name) {
    signal_t* s = new signal_t(NULL, baseSigname + name);
    attach_(s);
    signalsIN.push_back(s);
    return signalsIN.size() - 1;
  }
  std::size_t addSignal() {
    std::ostringstream o;
    o << "sin" << signalsIN.size();
    return addSignal(o.str());
  }
  void removeSignal() {
    if (signalsIN.empty()) throw std::out_of_range("");
    detach_(signalsIN.size() - 1);
    signalsIN.pop_back();
  }
  void valid_setSignalNumber_(const int& n) { assume(n >= 0); }
  void setSignalNumber(const int& n) {
    const std::size_t had = signalsIN.size();
    for (std::size_t i = n; i < had; ++i) detach_(i);
    signalsIN.resize(n, NULL);
    for (std::size_t i = had; i < (std::size_t)n; ++i) {
      std::ostringstream o;
      o << baseSigname << "sin" << i;
      signal_t* s = new signal_t(NULL, o.str());
      signalsIN[i] = s;
      attach_(s);
    }
    updateSignalNumber(n);
  }
  int getSignalNumber() const { return signalsIN.size(); }
  signal_t* getSignalIn(int i) {
    if (i < 0 || i >= (int)signalsIN.size()) throw std::out_of_range("");
    return signalsIN[i];
  }
};
template class VariadicAbstract<double, double, int>;
template class VariadicAbstract<bool, bool, int>;
template class VariadicAbstract<Vector, Vector, int>;
template class VariadicAbstract<Matrix, Matrix, int>;
}
