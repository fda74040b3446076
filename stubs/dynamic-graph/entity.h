#ifndef VSTUB_DG_ENTITY
#define VSTUB_DG_ENTITY
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/logger.h>
#include <dynamic-graph/command.h>
#include <boost/noncopyable.hpp>
#define DYNAMIC_GRAPH_ENTITY_DECL() \
 public:                            \
  virtual const std::string &getClassName() const { return CLASS_NAME; } \
  static const std::string CLASS_NAME
#define DYNAMIC_GRAPH_ENTITY_DEBUG(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG)
#define DYNAMIC_GRAPH_ENTITY_INFO(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_INFO)
#define DYNAMIC_GRAPH_ENTITY_WARNING(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_WARNING)
#define DYNAMIC_GRAPH_ENTITY_ERROR(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR)
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR_STREAM)
namespace dynamicgraph {
class Entity : private boost::noncopyable {
 public:
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  explicit Entity(const std::string &name);
  virtual ~Entity();
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const { static std::string e; return e; }
  virtual std::string getDocString() const { return ""; }
  bool hasSignal(const std::string &s) const { return signalMap.count(s) > 0; }
  SignalBase<int> &getSignal(const std::string &n) {
    SignalMap::iterator it = signalMap.find(n);
    if (it == signalMap.end()) DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered");
    return *it->second;
  }
  const SignalBase<int> &getSignal(const std::string &n) const { return const_cast<Entity *>(this)->getSignal(n); }
  std::ostream &displaySignalList(std::ostream &os) const { return os; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const { return os; }
  virtual void display(std::ostream &os) const { os << name; }
  virtual SignalBase<int> *test() { return NULL; }
  virtual void test2(SignalBase<int> *) {}
  const SignalMap &getSignalMap() const { return signalMap; }
  const std::map<const std::string, command::Command *> &getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &c) { return commandMap.at(c); }
  SignalMap getSignalMap() { return signalMap; }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void setLoggerVerbosityLevel(LoggerVerbosity lv) { logger_.setVerbosity(lv); }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  bool setTimeSample(double t) { return logger_.setTimeSample(t); }
  double getTimeSample() { return logger_.getTimeSample(); }
  bool setStreamPrintPeriod(double t) { return logger_.setStreamPrintPeriod(t); }
  double getStreamPrintPeriod() { return logger_.getStreamPrintPeriod(); }
 protected:
  void addCommand(const std::string &n, command::Command *c) {
    if (commandMap.count(n)) DG_THROW ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Command " + n + " already registered in Entity.");
    commandMap[n] = c;
  }
  void entityRegistration() {}
  void entityDeregistration() {}
  void signalRegistration(const SignalArray<int> &s) { for (unsigned i = 0; i < s.getSize(); ++i) { SignalBase<int> &g = s[i]; signalMap[g.shortName()] = &g; } }
  void signalDeregistration(const std::string &n) {
    SignalMap::iterator it = signalMap.find(n);
    if (it == signalMap.end()) DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "Signal not registered");
    signalMap.erase(it);
  }
  std::string name;
  SignalMap signalMap;
  CommandMap_t commandMap;
  Logger logger_;
 public:
  void sendMsg(const std::string &m, MsgType t = MSG_TYPE_INFO, const std::string &l = "") const { const_cast<Logger &>(logger_).stream(t, l) << m; }
};
inline std::ostream &operator<<(std::ostream &os, const Entity &e) { e.display(os); return os; }
}
#endif
#include <dynamic-graph/pool.h>
