// Reference semantics of the periodic calls and of the timed task events.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/pool.h>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <sot/core/sot.hh>
#include <sot/core/task-abstract.hh>
namespace spec {
using dynamicgraph::SignalBase;
using dynamicgraph::Signal;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Entity;
using dynamicgraph::sot::Sot;
using dynamicgraph::sot::TaskAbstract;

class PeriodicCall {
 public:
  struct SignalToCall {
    SignalBase<int>* signal;
    unsigned int downsamplingFactor;
    SignalToCall() : signal(NULL), downsamplingFactor(1) {}
    SignalToCall(SignalBase<int>* s, unsigned int f) : signal(s), downsamplingFactor(f) {}
  };
  std::map<std::string, SignalToCall> signalMap;
  int innerTime;
  PeriodicCall() : innerTime(0) {}
  void addSignal(const std::string& name, SignalBase<int>& s) { signalMap[name] = SignalToCall(&s, 1); }
  void addSignal(const std::string& path) { std::istringstream f(path); signalMap[path] = SignalToCall(&dynamicgraph::PoolStorage::getInstance()->getSignal(f), 1); }
  void addDownsampledSignal(const std::string& name, SignalBase<int>& s, const unsigned int& factor) { signalMap[name] = SignalToCall(&s, factor); }
  void addDownsampledSignal(const std::string& path, const unsigned int& factor) { std::istringstream f(path); signalMap[path] = SignalToCall(&dynamicgraph::PoolStorage::getInstance()->getSignal(f), factor); }
  void rmSignal(const std::string& name) { signalMap.erase(name); }
  void clear() { signalMap.clear(); }
  void refresh_(int t) {
    for (std::map<std::string, SignalToCall>::iterator i = signalMap.begin(); i != signalMap.end(); ++i)
      if (t % i->second.downsamplingFactor == 0) i->second.signal->recompute(t);
  }
  void runSignals(const int& t) { refresh_(t); }
  void run(const int& t) { refresh_(t); }
};

class PeriodicCallEntity : public Entity, public PeriodicCall {
 public:
  Signal<int, int> triger;
  Signal<int, int> trigerOnce;
  int& trigerCall(int& dummy, const int& t) { refresh_(t); return dummy; }
  int& trigerOnceCall(int& dummy, const int& t) { refresh_(t); PeriodicCall::signalMap.clear(); return dummy; }
};

class Sequencer : public Entity {
 public:
  class sotEventAbstract {
   public:
    enum sotEventType { EVENT_ADD, EVENT_RM, EVENT_CMD };
    std::string name;
    int eventType;
    sotEventAbstract(const std::string& n) : name(n) {}
    virtual ~sotEventAbstract() {}
    virtual const std::string& getName() const { return name; }
    int getEventType() const { return eventType; }
    virtual void operator()(Sot* s) = 0;
    virtual void display(std::ostream& os) const { os << name; }
  };
  Sot* sotPtr;
  typedef std::list<sotEventAbstract*> TaskList;
  typedef std::map<unsigned int, TaskList> TaskMap;
  TaskMap taskMap;
  int timeInit;
  bool playMode;
  std::ostream* outputStreamPtr;
  bool noOutput;
  SignalTimeDependent<int, int> triggerSOUT;
  Sequencer(const std::string& n) : Entity(n), timeInit(-1), playMode(false), outputStreamPtr(NULL), noOutput(false), triggerSOUT(n) {}
  void setSotRef(Sot* s) { sotPtr = s; }
  void addTask(sotEventAbstract* e, const unsigned int t) { taskMap[t].push_back(e); }
  void valid_trigger_() { assume_eq(outputStreamPtr, (std::ostream*)NULL); }
  int& trigger(int& dummy, const int& t) {
    if (playMode) {
      if (timeInit == -1) timeInit = t;
      TaskMap::iterator k = taskMap.find(t - timeInit);
      if (k != taskMap.end())
        for (TaskList::iterator e = k->second.begin(); e != k->second.end(); ++e)
          if (*e) (*(*e))(sotPtr);
    }
    return dummy;
  }
  // the first event of that kind and name leaves; a time without event disappears
  void rmTask(int type, const std::string& n, const unsigned int t) {
    TaskMap::iterator k = taskMap.find(t);
    if (k == taskMap.end()) return;
    for (TaskList::iterator e = k->second.begin(); e != k->second.end(); ++e)
      if ((*e)->getEventType() == type && (*e)->getName() == n) {
        k->second.erase(e);  // an event is in the sequence once: the sequence owns it
        break;
      }
    if (k->second.empty()) taskMap.erase(k);
  }
  void clearAll() {
    for (TaskMap::iterator k = taskMap.begin(); k != taskMap.end(); ++k)
      for (TaskList::iterator e = k->second.begin(); e != k->second.end(); ++e) delete *e;
    taskMap.clear();
  }
};

class sotEventTaskBased : public Sequencer::sotEventAbstract {
 public:
  TaskAbstract* taskPtr;
  const std::string defaultTaskName;
  sotEventTaskBased(const std::string n, TaskAbstract* t) : sotEventAbstract(n), taskPtr(t), defaultTaskName("NULL") {}
  virtual const std::string& getName() const { return taskPtr ? taskPtr->getName() : defaultTaskName; }
};
class sotEventAddATask : public sotEventTaskBased {
 public:
  sotEventAddATask(const std::string n, TaskAbstract* t) : sotEventTaskBased(n, t) { eventType = EVENT_ADD; }
  void operator()(Sot* s) { if (s != NULL && taskPtr != NULL) s->push(*taskPtr); }
};
class sotEventRemoveATask : public sotEventTaskBased {
 public:
  sotEventRemoveATask(const std::string n, TaskAbstract* t) : sotEventTaskBased(n, t) { eventType = EVENT_RM; }
  void operator()(Sot* s) { if (s != NULL && taskPtr != NULL) s->remove(*taskPtr); }
};
}
