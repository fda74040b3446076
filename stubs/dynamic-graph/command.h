#ifndef VSTUB_DG_COMMAND
#define VSTUB_DG_COMMAND
#include <dynamic-graph/value.h>
#include <boost/assign/list_of.hpp>
namespace dynamicgraph {
namespace command {
class Command {
 public:
  static const std::vector<Value::Type> EMPTY_ARG;
  virtual ~Command() {}
  Command(Entity &entity, const std::vector<Value::Type> &valueTypes, const std::string &docstring) : owner_(entity), typeVector_(valueTypes), docstring_(docstring) {}
  const std::vector<Value::Type> &valueTypes() const { return typeVector_; }
  void setParameterValues(const std::vector<Value> &values) { valueVector_ = values; }
  const std::vector<Value> &getParameterValues() const { return valueVector_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return docstring_; }
 protected:
  virtual Value doExecute() = 0;
 private:
  Entity &owner_;
  std::vector<Value::Type> typeVector_;
  std::vector<Value> valueVector_;
  std::string docstring_;
};
}
}
#endif
