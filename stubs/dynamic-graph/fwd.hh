#ifndef VSTUB_DG_FWD
#define VSTUB_DG_FWD
// Analysis stub of the dynamic-graph API (the real package is not installed in
// this sandbox).  It gives every sot-core translation unit resolved types.
#include <boost/shared_ptr.hpp>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#define DYNAMIC_GRAPH_DLLAPI
#define DYNAMIC_GRAPH_DLLEXPORT
#define DG_THROW throw
namespace dynamicgraph {
class Entity;
class PoolStorage;
template <class Time> class SignalBase;
template <class T, class Time> class Signal;
template <class T, class Time> class SignalPtr;
template <class T, class Time> class SignalTimeDependent;
template <class Time> class TimeDependency;
template <class Time> class SignalArray;
template <class Time> class SignalArray_const;
namespace command { class Command; class Value; }
}
#endif
