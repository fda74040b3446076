#ifndef VSTUB_DG_CSET
#define VSTUB_DG_CSET
#include <dynamic-graph/command.h>
namespace dynamicgraph {
namespace command {
template <class E, typename T>
class Setter : public Command {
 public:
  typedef void (E::*SetterMethod)(const T &);
  Setter(E &entity, SetterMethod m, const std::string &doc) : Command(entity, std::vector<Value::Type>(1, ValueHelper<T>::TypeID), doc), m_(m) {}
 protected:
  virtual Value doExecute() { const std::vector<Value> &v = this->getParameterValues(); T x = v[0].value(); E &e = static_cast<E &>(this->owner()); (e.*m_)(x); return Value(); }
 private:
  SetterMethod m_;
};
}
}
#endif
