#ifndef VSTUB_DG_SP
#define VSTUB_DG_SP
#include <dynamic-graph/signal.h>
namespace dynamicgraph {
template <class T, class Time>
class SignalPtr : public virtual Signal<T, Time> {
 protected:
  Signal<T, Time> *signalPtr;
  bool modeNoThrow;
  bool transmitAbstract;
  SignalBase<Time> *abstractTransmitter;
 public:
  SignalPtr(Signal<T, Time> *ptr, std::string name = "")
      : SignalBase<Time>(name), Signal<T, Time>(name), signalPtr(ptr), modeNoThrow(false), transmitAbstract(false), abstractTransmitter(NULL) {}
  virtual ~SignalPtr() {}
  bool isAbstractPluged() const { return (NULL != signalPtr) || transmitAbstract; }
  Signal<T, Time> *getPtr() { if (!isPlugged()) throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set."); return signalPtr; }
  const Signal<T, Time> *getPtr() const { if (!isPlugged()) throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set."); return signalPtr; }
  SignalBase<Time> *getAbstractPtr() { return signalPtr; }
  const SignalBase<Time> *getAbstractPtr() const { return signalPtr; }
  virtual void plug(SignalBase<Time> *ref) {
    if (!ref) { signalPtr = NULL; return; }
    signalPtr = dynamic_cast<Signal<T, Time> *>(ref);
    if (!signalPtr) throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Compl. Uncompatible types for plugin.");
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return NULL != signalPtr; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  virtual bool needUpdate(const Time &t) const { return isAutoPlugged() ? Signal<T, Time>::needUpdate(t) : (signalPtr ? signalPtr->needUpdate(t) : false); }
  virtual const Time &getTime() const { return isAutoPlugged() || !signalPtr ? SignalBase<Time>::getTime() : signalPtr->getTime(); }
  inline Signal<T, Time> *operator->() { return getPtr(); }
  inline Signal<T, Time> &operator*() { return *getPtr(); }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual const T &access(const Time &t) { if (isAutoPlugged()) return Signal<T, Time>::access(t); return getPtr()->access(t); }
  virtual const T &accessCopy() const { if (isAutoPlugged()) return Signal<T, Time>::accessCopy(); return getPtr()->accessCopy(); }
  virtual inline void recompute(const Time &t) { access(t); }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual void setConstant(const T &t) { plug(this); Signal<T, Time>::setConstant(t); }
  inline Signal<T, Time> &operator=(const T &t) { plug(this); return Signal<T, Time>::operator=(t); }
  bool isAutoPlugged() const { return signalPtr == this; }
  virtual void setReference(const T *t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setReference(t, m); }
  virtual void setFunction(boost::function2<T &, T &, Time> t, typename Signal<T, Time>::Mutex *m = NULL) { plug(this); Signal<T, Time>::setFunction(t, m); }
  virtual bool checkCompatibility() { return false; }
};
}
#endif
