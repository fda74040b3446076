#ifndef VSTUB_DG_TD
#define VSTUB_DG_TD
#include <dynamic-graph/signal-array.h>
#include <list>
namespace dynamicgraph {
template <class Time>
class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
  mutable Time lastAskForUpdate;
  SignalBase<Time> &leader;
  typedef std::list<const SignalBase<Time> *> Dependencies;
  Dependencies dependencies;
  bool updateFromAllChildren;
  DependencyType dependencyType;
  Time periodTime;
  TimeDependency(SignalBase<Time> *sig, const DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(0), leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {}
  TimeDependency(SignalBase<Time> *sig, const SignalArray_const<Time> &arr, const DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(0), leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) { addDependencies(arr); }
  virtual ~TimeDependency() {}
  void addDependencies(const SignalArray_const<Time> &arr) { for (unsigned i = 0; i < arr.getSize(); ++i) addDependency(arr[i]); }
  void addDependency(const SignalBase<Time> &sig) { dependencies.push_front(&sig); }
  void removeDependency(const SignalBase<Time> &sig) { dependencies.remove(&sig); }
  void clearDependency() { dependencies.clear(); }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string = "", std::string = "", std::string = "") const { return os; }
  bool needUpdate(const Time &t1) const {
    bool res = false;
    switch (dependencyType) {
      case BOOL_DEPENDENT: res = leader.getReady(); break;
      case ALWAYS_READY: res = true; break;
      default: {
        if (leader.getTime() + periodTime > t1) return leader.getReady() && false;
        res = leader.getReady();
        for (auto it = dependencies.begin(); it != dependencies.end(); ++it) {
          if ((*it)->needUpdate(t1) || leader.getTime() < (*it)->getTime()) { res = true; if (!updateFromAllChildren) break; }
        }
      }
    }
    if (lastAskForUpdate != t1) lastAskForUpdate = t1;
    return res;
  }
  void setDependencyType(DependencyType dep) { dependencyType = dep; }
  void setNeedUpdateFromAllChildren(const bool b = true) { updateFromAllChildren = b; }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
};
}
#endif
