#ifndef VSTUB_DG_RTL
#define VSTUB_DG_RTL
#include <dynamic-graph/fwd.hh>
namespace dynamicgraph {
class RealTimeLogger {
 public:
  static RealTimeLogger &instance() { static RealTimeLogger r; return r; }
  static void destroy() {}
};
}
#define dgRTLOG() ::dynamicgraph::nullStream_()
#endif
