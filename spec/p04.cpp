// Reference semantics of the exception family.
#include <stdarg.h>
#include <cstdio>
#include <exception>
#include <ostream>
#include <string>
namespace spec {
class ExceptionAbstract : public std::exception {
 public:
  static const std::string EXCEPTION_NAME;
  virtual const std::string& getExceptionName() const { return EXCEPTION_NAME; }
  int code;
  std::string message;
  ExceptionAbstract(const int& c, const std::string& m = "") : code(c), message(m) {}
  ~ExceptionAbstract() throw() {}
  int getCode() { return code; }
  const std::string& getStringMessage() { return message; }
  const char* getMessage() { return message.c_str(); }
  const char* what() const throw() { return message.c_str(); }
};
std::ostream& operator<<(std::ostream& os, const ExceptionAbstract& e) {
  os << e.getExceptionName() << "Error [#" << e.code << "]:  " << e.message << std::endl;
  return os;
}
const std::string ExceptionAbstract::EXCEPTION_NAME = "Abstract";
#define FAMILY(X, NAME)                                                               \
  class X : public ExceptionAbstract {                                                \
   public:                                                                            \
    enum ErrorCodeEnum { GENERIC };                                                   \
    static const std::string EXCEPTION_NAME;                                          \
    const std::string& getExceptionName() const { return X::EXCEPTION_NAME; }         \
    X(const ErrorCodeEnum& c, const std::string& m = "") : ExceptionAbstract(c, m) {} \
    X(const ErrorCodeEnum& c, const std::string& m, const char* format, ...)          \
        : ExceptionAbstract(c, m) {                                                   \
      va_list args;                                                                   \
      va_start(args, format);                                                         \
      char detail[256];                                                               \
      vsnprintf(detail, sizeof detail, format, args);                                 \
      va_end(args);                                                                   \
      message = m + std::string(detail);                                              \
    }                                                                                 \
  };                                                                                  \
  const std::string X::EXCEPTION_NAME = NAME;
FAMILY(ExceptionDynamic, "Dynamic")
FAMILY(ExceptionFactory, "Factory")
FAMILY(ExceptionFeature, "Feature")
FAMILY(ExceptionSignal, "Signal")
FAMILY(ExceptionTask, "Task")
FAMILY(ExceptionTools, "Tools")
}
