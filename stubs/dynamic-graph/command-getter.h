#ifndef VSTUB_DG_CGET
#define VSTUB_DG_CGET
#include <dynamic-graph/command.h>
namespace dynamicgraph {
namespace command {
template <class E, typename T>
class Getter : public Command {
 public:
  typedef T (E::*GetterMethod)() const;
  Getter(E &entity, GetterMethod m, const std::string &doc) : Command(entity, std::vector<Value::Type>(), doc), m_(m) {}
 protected:
  virtual Value doExecute() { E &e = static_cast<E &>(this->owner()); return Value((e.*m_)()); }
 private:
  GetterMethod m_;
};
}
}
#endif
