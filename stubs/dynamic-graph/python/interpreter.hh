#ifndef VSTUB_DG_INTERP
#define VSTUB_DG_INTERP
#include <string>
namespace dynamicgraph { namespace python {
class Interpreter {
 public:
  Interpreter(); ~Interpreter();
  std::string python(const std::string &command);
  void python(const std::string &command, std::string &result, std::string &out, std::string &err);
  void runPythonFile(std::string filename);
  void runPythonFile(std::string filename, std::string &err);
  void runMain();
  std::string processStream(std::istream &, std::ostream &);
  void startRosService();
};
}}
#endif
