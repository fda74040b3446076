#ifndef VSTUB_DG_SIG
#define VSTUB_DG_SIG
#include <dynamic-graph/signal-base.h>
#include <dynamic-graph/signal-caster.h>
#include <mutex>
#include <boost/bind.hpp>
using boost::placeholders::_1;
using boost::placeholders::_2;
using boost::placeholders::_3;
namespace dynamicgraph {
template <class T, class Time>
class Signal : public virtual SignalBase<Time> {
 protected:
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  SignalType signalType;
  const T *Treference;
  T *TreferenceNonConst;
  boost::function2<T &, T &, Time> Tfunction;
  bool keepReference;
  static const bool KEEP_REFERENCE_DEFAULT = false;
 public:
  typedef std::mutex Mutex;
 protected:
  Mutex *providerMutex;
  T Tcopy1, Tcopy2;
  T *Tcopy;
  bool copyInit;
 public:
  Signal(std::string name) : SignalBase<Time>(name), signalType(CONSTANT), Treference(NULL), TreferenceNonConst(NULL), keepReference(false), providerMutex(NULL), Tcopy(&Tcopy1), copyInit(false) {}
  virtual ~Signal() {}
  virtual void get(std::ostream &os) const { signal_io<T>::disp(this->accessCopy(), os); }
  virtual void set(std::istringstream &iss) { (*this) = signal_io<T>::cast(iss); }
  virtual void trace(std::ostream &os) const { signal_io<T>::trace(this->accessCopy(), os); }
  virtual void setConstant(const T &t) { signalType = CONSTANT; setTcopy(t); this->setReady(); }
  virtual void setReference(const T *t, Mutex *m = NULL) { signalType = REFERENCE; Treference = t; providerMutex = m; copyInit = false; this->setReady(); }
  virtual void setReferenceNonConstant(T *t, Mutex *m = NULL) { signalType = REFERENCE_NON_CONST; Treference = t; TreferenceNonConst = t; providerMutex = m; copyInit = false; this->setReady(); }
  virtual void setFunction(boost::function2<T &, T &, Time> t, Mutex *m = NULL) { signalType = FUNCTION; Tfunction = t; providerMutex = m; copyInit = false; this->setReady(); }
  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE: case REFERENCE_NON_CONST: setTcopy(*Treference); this->setTime(t); return accessCopy();
      case FUNCTION: Tfunction(*Tcopy, t); copyInit = true; this->setReady(false); this->setTime(t); return accessCopy();
      default: this->setReady(false); this->setTime(t); return accessCopy();
    }
  }
  virtual inline void recompute(const Time &t) { access(t); }
  virtual const T &operator()(const Time &t) { return access(t); }
  Signal<T, Time> &operator=(const T &t) { if (signalType == REFERENCE_NON_CONST) { *TreferenceNonConst = t; this->setReady(); } else setConstant(t); return *this; }
  inline operator const T &() const { return accessCopy(); }
  virtual const T &accessCopy() const { if (!copyInit && signalType != REFERENCE && signalType != REFERENCE_NON_CONST) {} return *Tcopy; }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &b) { keepReference = b; }
  virtual std::ostream &display(std::ostream &os) const { return os << "Sig:" << this->name; }
 protected:
  const T &setTcopy(const T &t) { *Tcopy = t; copyInit = true; return *Tcopy; }
};
}
#endif
