#ifndef VSTUB_DGPY
#define VSTUB_DGPY
// the part of boost::python and dynamic-graph-python the binding sources use
#include <dynamic-graph/entity.h>
#include <dynamic-graph/signal-base.h>
#include <dynamic-graph/value.h>
#include <boost/mpl/vector.hpp>
#include <boost/noncopyable.hpp>
#include <sstream>
#include <string>
#include <vector>
namespace boost { namespace python {
struct reference_existing_object {};
template <class P> struct return_value_policy {};
template <class... B> struct bases {};
struct keywords {};
struct arg { arg(const char *); };
keywords operator,(const arg &, const char *);
keywords operator,(const keywords &, const char *);
keywords operator,(const arg &, const arg &);
template <class... A> struct init { init(); };
struct no_init_t {};
extern no_init_t no_init;
struct self_t {};
extern self_t self;
struct selfop {};
selfop operator&(self_t, self_t);
selfop operator|(self_t, self_t);
selfop operator&=(self_t, self_t);
selfop operator|=(self_t, self_t);
struct object { object operator[](std::size_t) const; };
struct list : object {};
struct tuple : object {};
std::size_t len(const object &);
template <class T> struct extract { extract(const object &); operator T() const; };
object import(const char *);
template <class F, class P> object make_function(F, P);
template <class F> object make_constructor(F);
template <class T, class... O> struct class_ {
  template <class... A> class_(const char *, A...);
  template <class... A> class_ &def(A...);
  template <class... A> class_ &add_property(A...);
  template <class... A> class_ &def_readonly(A...);
  template <class... A> class_ &def_readwrite(A...);
};
} }
namespace bp = boost::python;
#define BOOST_PYTHON_MODULE(name) void init_module_##name()
namespace dynamicgraph { namespace python {
struct AddSignals {};
struct AddCommands {};
template <class T, class... O> bp::class_<T> exposeEntity();
template <class T, class I> void exposeSignalsOfType(const char *);
template <class It> bp::list to_py_list(It, It);
template <class T> std::vector<T> to_std_vector(bp::object);
} }
#endif
