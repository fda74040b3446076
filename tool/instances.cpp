// Extra translation unit: instantiates header-only templates of the analysed
// tree so that their bodies are type-checked and exported.
#include <dynamic-graph/linear-algebra.h>
#include <sot/core/causal-filter.hh>
#include <sot/core/fir-filter.hh>
#include <sot/core/mailbox-vector.hh>
#include <sot/core/mailbox.hxx>
#include <sot/core/variadic-op.hh>
#include <sot/core/unary-op.hh>
#include <sot/core/binary-op.hh>
#include <sot/core/derivator.hh>
#include <sot/core/integrator-euler.hh>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/stop-watch.hh>
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/debug.hh>
#include <sot/core/exception-abstract.hh>
template class dynamicgraph::sot::Mailbox<dynamicgraph::Vector>;
template class dynamicgraph::sot::Mailbox<double>;
template class dynamicgraph::sot::FIRFilter<double, double>;
template class dynamicgraph::sot::FIRFilter<dynamicgraph::Vector, double>;
template class dynamicgraph::sot::FIRFilter<dynamicgraph::Vector, dynamicgraph::Matrix>;
