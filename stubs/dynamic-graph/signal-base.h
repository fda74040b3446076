#ifndef VSTUB_DG_SB
#define VSTUB_DG_SB
#include <dynamic-graph/exception-abstract.h>
#include <boost/function.hpp>
#include <boost/noncopyable.hpp>
namespace dynamicgraph {
template <class Time>
class SignalBase : public boost::noncopyable {
 public:
  explicit SignalBase(std::string name = "") : name(name), signalTime(0), ready(false) {}
  virtual ~SignalBase() {}
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  virtual void getClassName(std::ostream &os) const { os << "signal"; }
  virtual void plug(SignalBase<Time> *) { DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. "); }
  virtual void unplug() { DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. "); }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() {}
  virtual void unsetConstantDefault() {}
  virtual bool needUpdate(const Time &) const { return ready; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string = "", std::string = "") const { return os; }
  virtual std::ostream &display(std::ostream &os) const { return os << name; }
  virtual inline void setReady(const bool sready = true) { ready = sready; }
  virtual void recompute(const Time &) {}
  virtual void setPeriodTime(const Time &) {}
  virtual Time getPeriodTime() const { return 1; }
  virtual void addDependency(const SignalBase<Time> &) { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, ""); }
  virtual void removeDependency(const SignalBase<Time> &) { DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, ""); }
  virtual void clearDependencies() {}
  virtual void set(std::istringstream &) {}
  virtual void get(std::ostream &) const {}
  virtual inline void getClassName_() const {}
  virtual void trace(std::ostream &os) const { get(os); }
  virtual void ExtractNodeAndLocalNames(std::string &LocalName, std::string &NodeName) const { LocalName = name; NodeName = name; }
  std::string shortName() const {
    std::string s = name; size_t p = s.rfind(':');
    return p == std::string::npos ? s : s.substr(p + 1);
  }
  virtual bool checkCompatibility() { return false; }
 protected:
  std::string name;
  Time signalTime;
  bool ready;
};
template <class Time>
std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &s) { return s.display(os); }
}
#endif
