#ifndef VSTUB_DG_LOG
#define VSTUB_DG_LOG
#include <dynamic-graph/fwd.hh>
#include <dynamic-graph/linear-algebra.h>
namespace dynamicgraph {
enum MsgType { MSG_TYPE_TYPE_BITS = 1 << 3, MSG_TYPE_STREAM_BITS = 1 << 4,
  MSG_TYPE_DEBUG = 1, MSG_TYPE_INFO = 3, MSG_TYPE_WARNING = 5, MSG_TYPE_ERROR = 7,
  MSG_TYPE_DEBUG_STREAM = 9, MSG_TYPE_INFO_STREAM = 11, MSG_TYPE_WARNING_STREAM = 13, MSG_TYPE_ERROR_STREAM = 15 };
enum LoggerVerbosity { VERBOSITY_NONE = 0, VERBOSITY_ERROR, VERBOSITY_WARNING_ERROR, VERBOSITY_INFO_WARNING_ERROR, VERBOSITY_ALL };
struct NullStream_ : std::ostream { NullStream_() : std::ostream(nullptr) {} };
inline std::ostream &nullStream_() { static NullStream_ s; return s; }
class Logger {
 public:
  std::ostream &stream(MsgType, const std::string & = "") { return nullStream_(); }
  std::ostream &stream() { return nullStream_(); }
  void sendMsg(std::string, MsgType, const std::string & = "", int = 0) {}
  bool setTimeSample(double t) { if (t <= 0) return false; ts_ = t; return true; }
  double getTimeSample() { return ts_; }
  bool setStreamPrintPeriod(double) { return true; }
  double getStreamPrintPeriod() { return 1; }
  void setVerbosity(LoggerVerbosity v) { v_ = v; }
  LoggerVerbosity getVerbosity() { return v_; }
 protected:
  double ts_ = 0.001;
  LoggerVerbosity v_ = VERBOSITY_ERROR;
};
}
#define VSTUB_MSG_STR2(x) #x
#define VSTUB_MSG_STR(x) VSTUB_MSG_STR2(x)
#define SEND_MSG(msg, type) sendMsg(msg, type, std::string(__FILE__ ":") + VSTUB_MSG_STR(__LINE__))
#define SEND_DEBUG_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) SEND_MSG(msg, MSG_TYPE_ERROR_STREAM)
namespace dynamicgraph {
template <typename T> std::string toString(const T &v, const int = 3, const int = -1) { std::stringstream ss; ss << v; return ss.str(); }
template <typename T> std::string toString(const std::vector<T> &v, const int = 3, const int = -1, const std::string &sep = ", ") { std::stringstream ss; for (auto &x : v) ss << x << sep; return ss.str(); }
}
#endif
