#ifndef VSTUB_DG_SH
#define VSTUB_DG_SH
#include <boost/bind.hpp>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/signal-ptr.h>
#include <dynamic-graph/signal-time-dependent.h>
#include <dynamic-graph/signal.h>
#define DECLARE_SIGNAL(name, IO, type) ::dynamicgraph::Signal<type, int> m_##name##S##IO
#define CONSTRUCT_SIGNAL(name, IO, type) \
  m_##name##S##IO(getClassName() + "(" + getName() + ")::" + #IO + "put(" + #type + ")::" + #name)
#define BIND_SIGNAL_TO_FUNCTION(name, IO, type) \
  m_##name##S##IO.setFunction(boost::bind(&EntityClassName::SIGNAL_OUT_FUNCTION(name), this, _1, _2));
#define DECLARE_SIGNAL_IN(name, type) ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_IN(name, type) \
  m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + ")::" + #name)
#define SIGNAL_OUT_FUNCTION(name) name##SOUT_function
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) type &SIGNAL_OUT_FUNCTION(name)(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::SIGNAL_OUT_FUNCTION(name)(type & s, int iter)
#define DECLARE_SIGNAL_OUT(name, type)                           \
 public:                                                         \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; \
                                                                 \
 protected:                                                      \
  type &SIGNAL_OUT_FUNCTION(name)(type &, int)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep)                                    \
  m_##name##SOUT(boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2), dep, \
                 getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define DECLARE_SIGNAL_INNER(name, type)                           \
 public:                                                           \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; \
                                                                   \
 protected:                                                        \
  type &name##SINNER_function(type &, int)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep)                                     \
  m_##name##SINNER(boost::bind(&EntityClassName::name##SINNER_function, this, _1, _2), dep, \
                   getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::name##SINNER_function(type & s, int iter)
#define SIGNAL_INNER_FUNCTION(name) name##SINNER_function
#endif
