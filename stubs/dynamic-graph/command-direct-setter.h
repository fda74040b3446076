#ifndef VSTUB_DG_CDSET
#define VSTUB_DG_CDSET
#include <dynamic-graph/command.h>
namespace dynamicgraph {
namespace command {
template <class E, typename T>
class DirectSetter : public Command {
 public:
  DirectSetter(E &entity, T *ptr, const std::string &doc) : Command(entity, std::vector<Value::Type>(1, ValueHelper<T>::TypeID), doc), p_(ptr) {}
 protected:
  virtual Value doExecute() { T x = this->getParameterValues()[0].value(); (*p_) = x; return Value(); }
 private:
  T *p_;
};
template <class E, typename T>
DirectSetter<E, T> *makeDirectSetter(E &entity, T *ptr, const std::string &doc) { return new DirectSetter<E, T>(entity, ptr, doc); }
inline std::string docDirectSetter(const std::string &name, const std::string &type) { return name + type; }
}
}
#endif
