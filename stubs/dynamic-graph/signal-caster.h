#ifndef VSTUB_DG_SC
#define VSTUB_DG_SC
#include <dynamic-graph/fwd.hh>
#include <dynamic-graph/eigen-io.h>
namespace dynamicgraph {
template <typename T> struct signal_disp {
  static void run(const T &v, std::ostream &os) { os << v << '\n'; }
};
template <typename T> struct signal_trace {
  static void run(const T &v, std::ostream &os) { os << v << '\n'; }
};
template <typename T> struct signal_io_base {
  static void disp(const T &v, std::ostream &os) { os << v << '\n'; }
  static void trace(const T &v, std::ostream &os) { os << v << '\n'; }
  static T cast(std::istringstream &iss) { T v; iss >> v; return v; }
};
template <typename T> struct signal_io_unimplemented {
  static void disp(const T &, std::ostream &) {}
  static void trace(const T &, std::ostream &) {}
  static T cast(std::istringstream &) { throw std::logic_error("unimplemented"); }
};
template <typename T> struct signal_io : signal_io_base<T> {};
}
#define DG_SIGNAL_CAST_DEFINITION_HPP(TYPE)
#define DG_SIGNAL_CAST_DEFINITION_TRACE(TYPE)
#define DG_SIGNAL_CAST_DEFINITION(TYPE)
#define DG_ADD_CASTER(TYPE, ID)
#endif
