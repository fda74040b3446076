#ifndef VSTUB_DG_STD
#define VSTUB_DG_STD
#include <dynamic-graph/signal.h>
#include <dynamic-graph/time-dependency.h>
namespace dynamicgraph {
template <class T, class Time>
class SignalTimeDependent : public virtual Signal<T, Time>, public TimeDependency<Time> {
 public:
  SignalTimeDependent(std::string name = "") : SignalBase<Time>(name), Signal<T, Time>(name), TimeDependency<Time>(this) {}
  SignalTimeDependent(const SignalArray_const<Time> &arr, std::string name = "") : SignalBase<Time>(name), Signal<T, Time>(name), TimeDependency<Time>(this, arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> t, const SignalArray_const<Time> &sig, std::string name = "")
      : SignalBase<Time>(name), Signal<T, Time>(name), TimeDependency<Time>(this, sig) { this->setFunction(t); }
  virtual ~SignalTimeDependent() {}
  inline const T &access(const Time &t1) {
    if (TimeDependency<Time>::needUpdate(t1)) { const T &Tres = Signal<T, Time>::access(t1); this->setReady(false); return Tres; }
    return Signal<T, Time>::accessCopy();
  }
  inline const T &operator()(const Time &t1) { return access(t1); }
  Signal<T, Time> &operator=(const T &t) { return Signal<T, Time>::operator=(t); }
  virtual void recompute(const Time &t) { access(t); }
  virtual bool needUpdate(const Time &t) const { return TimeDependency<Time>::needUpdate(t); }
  virtual void setPeriodTime(const Time &p) { TimeDependency<Time>::setPeriodTime(p); }
  virtual Time getPeriodTime() const { return TimeDependency<Time>::getPeriodTime(); }
  virtual void addDependency(const SignalBase<Time> &sig) { TimeDependency<Time>::addDependency(sig); }
  virtual void removeDependency(const SignalBase<Time> &sig) { TimeDependency<Time>::removeDependency(sig); }
  virtual void clearDependencies() { TimeDependency<Time>::clearDependency(); }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int d = -1, std::string s = "", std::string n = "") const { return os; }
};
}
#endif
