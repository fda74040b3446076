#include <dynamic-graph/fwd.hh>
