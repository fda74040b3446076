// Reference semantics of the stack of tasks: an ordered list, first = highest priority.
#include "assume.hh"
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sot/core/multi-bound.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-abstract.hh>
namespace spec {
using dynamicgraph::Entity;
using dynamicgraph::Matrix;
using dynamicgraph::SignalPtr;
using dynamicgraph::SignalTimeDependent;
using dynamicgraph::Vector;
using namespace dynamicgraph::sot;

class Sot : public Entity {
 public:
  typedef std::list<TaskAbstract*> StackType;
  StackType stack;
  unsigned int nbJoints;
  SignalTimeDependent<Vector, int> controlSOUT;
  Sot(const std::string& n) : Entity(n) {}
  const StackType& tasks() const { return stack; }
  const unsigned int& getNbDof() const { return nbJoints; }
  void push(TaskAbstract& task) {
    if (nbJoints == 0) throw std::logic_error("");
    stack.push_back(&task);
    controlSOUT.addDependency(task.taskSOUT);
    controlSOUT.addDependency(task.jacobianSOUT);
    controlSOUT.setReady();
  }
  void drop_(const TaskAbstract& task) {
    controlSOUT.removeDependency(task.taskSOUT);
    controlSOUT.removeDependency(task.jacobianSOUT);
    controlSOUT.setReady();
  }
  // the dependencies of a task hold as long as it is somewhere in the stack
  void unlink_(const TaskAbstract& task) {
    for (StackType::iterator i = stack.begin(); i != stack.end(); ++i)
      if (*i == &task) { controlSOUT.setReady(); return; }
    drop_(task);
  }
  TaskAbstract& pop() {
    if (stack.empty()) throw std::logic_error("");
    TaskAbstract* last = stack.back();
    stack.pop_back();
    unlink_(*last);
    return *last;
  }
  bool exist(const TaskAbstract& key) {
    for (StackType::iterator i = stack.begin(); i != stack.end(); ++i)
      if (*i == &key) return true;
    return false;
  }
  void remove(const TaskAbstract& key) {
    StackType::iterator i = stack.begin();
    while (i != stack.end() && *i != &key) ++i;
    if (i == stack.end()) return;
    stack.erase(i);
    unlink_(key);
  }
  void removeDependency(const TaskAbstract& key) { drop_(key); }
  // exchange with the neighbour of higher priority; the first one stays
  void up(const TaskAbstract& key) {
    StackType::iterator before = stack.end();
    for (StackType::iterator i = stack.begin(); i != stack.end(); ++i) {
      if (*i == &key) {
        if (i == stack.begin()) return;
        StackType::iterator p = i;
        --p;
        TaskAbstract* x = *p;
        *p = *i;
        *i = x;
        controlSOUT.setReady();
        return;
      }
    }
  }
  // exchange with the neighbour of lower priority; the last one stays
  void down(const TaskAbstract& key) {
    for (StackType::iterator i = stack.begin(); i != stack.end(); ++i) {
      if (*i == &key) {
        StackType::iterator n = i;
        ++n;
        if (n != stack.end()) {
          TaskAbstract* x = *n;
          *n = *i;
          *i = x;
        }
        controlSOUT.setReady();
        return;
      }
    }
  }
  void clear() {
    for (StackType::iterator i = stack.begin(); i != stack.end(); ++i) drop_(**i);
    stack.clear();
    controlSOUT.setReady();
  }
  void defineNbDof(const unsigned int& n) { nbJoints = n; controlSOUT.setReady(); }
  static void taskVectorToMlVector(const VectorMultiBound& v, Vector& r) {
    r.resize(v.size());
    for (unsigned i = 0; i < v.size(); i++) r(i) = v[i].getSingleBound();
  }
};
}
