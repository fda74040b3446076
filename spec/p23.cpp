// P23: preconditions under which an output has to be fully defined (class
// invariants and agreement of sizes; no reference semantics here)
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/linear-algebra.h>
#include <list>
#include <vector>
using namespace dynamicgraph;
namespace spec {
// an entity that was not initialised only warns
class AdmittanceControlOpPoint {
 public:
  bool m_initSucceeded;
  void valid_() { assume(m_initSucceeded); }
};
class MadgwickAHRS {
 public:
  bool m_initSucceeded;
  void valid_() { assume(m_initSucceeded); }
};
// no goal was given yet
class SmoothReach {
 public:
  bool isParam, isStarted;
  void valid_() { assume(isParam || isStarted); }
};
class FeatureJointLimits {
 public:
  SignalPtr<Vector, int> jointSIN, upperJlSIN, lowerJlSIN;
  void valid_() {}
};
class FeaturePosture {
 public:
  std::vector<bool> activeDofs_;
  std::size_t nbActiveDofs_;
  void valid_() {
    std::size_t n = 0;
    for (std::size_t i = 0; i < activeDofs_.size(); ++i)
      if (activeDofs_[i]) n++;
    assume_eq(nbActiveDofs_, n);
  }
};
// the selected segments make up the announced size
struct VectorSelecter {
  typedef Vector Tin; typedef Vector Tout;
  std::vector<std::pair<Vector::Index, Vector::Index> > idxs;
  Vector::Index size;
};
template <typename Op> struct UnaryOp {
  Op op;
  void valid_() {
    Vector::Index n = 0;
    for (std::size_t i = 0; i < op.idxs.size(); ++i) n += op.idxs[i].second;
    assume_eq(op.size, n);
  }
};
template struct UnaryOp<VectorSelecter>;
// the derivatives of the errors have the sizes of the errors
class FeatureAbstract {
 public:
  SignalTimeDependent<Vector, int>& getErrorDot();
};
class Task {
 public:
  std::list<FeatureAbstract*> featureList;
  SignalTimeDependent<Vector, int> errorSOUT;
  void valid_computeErrorTimeDerivative_(Vector&, int t) {
    Vector::Index n = 0;
    for (std::list<FeatureAbstract*>::iterator i = featureList.begin(); i != featureList.end(); ++i) n += (*i)->getErrorDot()(t).size();
    assume_eq(errorSOUT(t).size(), n);
  }
};
// there is at least one operand
template <typename T> struct AdderVariadic {};
template <typename T> struct Multiplier {};
template <typename Op> struct VariadicOp {
  std::vector<SignalPtr<double, int>*> signalsIN;
  void valid_() { assume(signalsIN.size() > 0); }
};
template struct VariadicOp<AdderVariadic<double>>;
template struct VariadicOp<AdderVariadic<Vector>>;
template struct VariadicOp<AdderVariadic<Matrix>>;
template struct VariadicOp<Multiplier<Matrix>>;
}  // namespace spec
