#ifndef VSTUB_DG_EH
#define VSTUB_DG_EH
#include <dynamic-graph/entity.h>
#include <dynamic-graph/signal-helper.h>
namespace dynamicgraph {
template <typename Ent>
class EntityHelper {
 public:
  typedef Ent EntityClassName;
};
}
#endif
