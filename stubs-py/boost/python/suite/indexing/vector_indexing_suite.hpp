#include <dynamic-graph/python/module.hh>
