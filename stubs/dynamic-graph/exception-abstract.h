#ifndef VSTUB_DG_EXC
#define VSTUB_DG_EXC
#include <dynamic-graph/fwd.hh>
#include <cstdarg>
#include <cstdio>
#include <exception>
namespace dynamicgraph {
class ExceptionAbstract : public std::exception {
 public:
  enum ExceptionEnum { ABSTRACT = 0, SIGNAL = 100, FACTORY = 200, TRACES = 700, TOOLS = 800 };
  ExceptionAbstract(const int &c, const std::string &msg = "") : code(c), message(msg) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string &getExceptionName() const { static std::string s("abstract"); return s; }
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *what() const throw() { return message.c_str(); }
 protected:
  int code;
  std::string message;
};
inline std::ostream &operator<<(std::ostream &o, const ExceptionAbstract &e) { return o << e.what(); }
#define VSTUB_EXC(N, ...)                                                     \
  class N : public ExceptionAbstract {                                        \
   public:                                                                    \
    enum ErrorCodeEnum { __VA_ARGS__ };                                       \
    N(const ErrorCodeEnum &c, const std::string &m = "") : ExceptionAbstract(c, m) {} \
    N(const ErrorCodeEnum &c, const std::string &m, const char *fmt, ...) : ExceptionAbstract(c, m) { \
      char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, 512, fmt, a); va_end(a); message += b; } \
  };
VSTUB_EXC(ExceptionSignal, GENERIC = 100, READWRITE_LOCK, COPY_NOT_INITIALIZED, NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST)
VSTUB_EXC(ExceptionFactory, GENERIC_F = 200, UNREFERED_OBJECT, UNREFERED_SIGNAL, UNREFERED_FUNCTION, DYNAMIC_LOADING, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR, READ_FILE)
VSTUB_EXC(ExceptionTraces, GENERIC_T = 700, NOT_OPEN)
}
#endif
