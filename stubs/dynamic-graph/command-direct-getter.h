#ifndef VSTUB_DG_CDGET
#define VSTUB_DG_CDGET
#include <dynamic-graph/command.h>
namespace dynamicgraph {
namespace command {
template <class E, typename T>
class DirectGetter : public Command {
 public:
  DirectGetter(E &entity, T *ptr, const std::string &doc) : Command(entity, std::vector<Value::Type>(), doc), p_(ptr) {}
 protected:
  virtual Value doExecute() { return Value(*p_); }
 private:
  T *p_;
};
template <class E, typename T>
DirectGetter<E, T> *makeDirectGetter(E &entity, T *ptr, const std::string &doc) { return new DirectGetter<E, T>(entity, ptr, doc); }
inline std::string docDirectGetter(const std::string &name, const std::string &type) { return name + type; }
}
}
#endif
